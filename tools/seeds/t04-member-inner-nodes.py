ID, PROPERTY = "t04-member-inner-nodes", "T04"
NEEDS = "chord members of several elements with a line load: the largest moment is between the joints"
BREAKS = "the steel members of the chord are designed only for the forces at their first joint"
EDITS = [("metku/truss2d/truss2d.py", "                    for id in range(j0.nodes['c0'].nid, j1.nodes['c0'].nid):", "                    for id in range(j0.nodes['c0'].nid, j1.nodes['c0'].nid, self.num_elements):")]
DEMO = '''
import matplotlib
matplotlib.use("Agg")
import metku.eurocodes.en1993
import metku.frame2d.frame2d as FD
from metku.truss2d.truss2d import Truss2D
t = Truss2D(simple=dict(H0=0, H1=1200, H2=2200, L1=10000, n=12, dx=1500), q=-30, num_elements=3)
t.add(FD.XYHingedSupport([0, 1200]))
t.add(FD.YHingedSupport([20000, 1200]))
t.generate()
t.calculate(load_id=FD.LoadIDs.ULS)
for c in t.top_chords:
    for m, a, b in zip(c.members, c.joints[:-1], c.joints[1:]):
        x0, x1 = a.nodes["c0"].x, b.nodes["c0"].x
        want = max(abs(c.nodal_forces[FD.LoadIDs.ULS][n.nid][2]) for n in c.nodes.values() if x0 <= n.x < x1)
        got = max(abs(x) for x in m.myed)
        assert abs(got - want) < 1e-6 * want, (a.jid, b.jid, got, want)
'''
