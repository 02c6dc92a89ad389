ID, PROPERTY = "t04-hogging-joint-moment", "T04"
NEEDS = "a K joint whose chord moments at the two braces have opposite signs, the negative one larger"
BREAKS = "the joint is designed for the smaller chord moment"
EDITS = [("metku/truss2d/truss2d.py", "            M0 = max(abs(M01), abs(M02))", "            M0 = max(M01, M02)")]
DEMO = '''
import matplotlib
matplotlib.use("Agg")
import metku.eurocodes.en1993
import metku.frame2d.frame2d as FD
from metku.truss2d.truss2d import Truss2D
for q in (-20, 20):
    t = Truss2D(simple=dict(H0=0, H1=1200, H2=2200, L1=10000, n=16, dx=1000), q=q)
    t.add(FD.XYHingedSupport([0, 1200]))
    t.add(FD.YHingedSupport([20000, 1200]))
    t.generate()
    t.calculate(load_id=FD.LoadIDs.ULS)
    for j in t.joints.values():
        if j.joint_type == "K":
            m = [j.chord.nodal_forces[FD.LoadIDs.ULS][j.nodes[k].nid][2] for k in ("c01", "c02")]
            assert abs(j.rhs_joint.M0 - max(abs(x) for x in m)) < 1e-6 * abs(m[0]) + 1e-3, (j.jid, j.rhs_joint.M0, m)
'''
