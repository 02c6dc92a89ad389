ID, PROPERTY = "r01-last-node-axial", "R01"
NEEDS = "member with an axial force that varies along it (column with self weight, inclined member with a vertical line load)"
BREAKS = "axial force reported at the last node of the member is that of the previous node"
EDITS = [("metku/raami/frame_member.py", "self.nodal_forces[load_id]['N'].append(self.fem_elements[-1].fint[load_id]['fx'][1])", "self.nodal_forces[load_id]['N'].append(self.fem_elements[-1].fint[load_id]['fx'][0])")]
DEMO = '''
from metku.raami.raami import Raami
from metku.raami.frame_node import FrameNode
from metku.raami.frame_member import SteelFrameMember
from metku.raami.frame_supports import FixedSupport
from metku.raami.frame_loads import LineLoad
from metku.sections.steel.RHS import RHS
r = Raami("d")
n = [FrameNode([0, 0]), FrameNode([0, 4000])]
for x in n: r.add(x)
m = SteelFrameMember(n, RHS(100, 100, 5), mem_type="column", nel=4)
r.add(m); r.add(FixedSupport(n[0]))
r.add(LineLoad(m, [-2.0, -2.0], "y", load_id=1))
r.generate_fem(); r.structural_analysis(1, design=False)
N = m.nodal_forces[1]["N"]
for i, v in enumerate(N):
    assert abs(v + 2.0 * 4000 * (1 - i / 4)) < 1e-3, N
'''
