ID, PROPERTY = "r02-scaled-line-load", "R02"
NEEDS = "a trapezoidal or uniform line load in a load combination with a factor other than one"
BREAKS = "the combination factor reaches full value only at the first end of the member: the second end keeps the characteristic value"
EDITS = [("metku/raami/frame_loads.py", "        qvals = self.f*np.linspace(v0,v1,len(self.member.fem_elements)+1)        \n", "        qvals = np.linspace(self.f*v0,v1,len(self.member.fem_elements)+1)\n")]
DEMO = '''
import numpy as np
from metku.raami.raami import Raami
from metku.raami.frame_node import FrameNode
from metku.raami.frame_member import SteelFrameMember
from metku.raami.frame_supports import FixedSupport
from metku.raami.frame_loads import LineLoad
from metku.sections.steel.RHS import RHS
r = Raami("d")
n = [FrameNode([0, 0]), FrameNode([4000, 0])]
for x in n: r.add(x)
m = SteelFrameMember(n, RHS(100, 100, 5), mem_type="beam", nel=4)
r.add(m); r.add(FixedSupport(n[0]))
r.add(LineLoad(m, [-2.0, -2.0], "y", load_id=1, f=1.5))
r.generate_fem(); r.structural_analysis(1, design=False)
assert abs(abs(m.nodal_forces[1]["Vz"][0]) - 12000) < 1e-3, m.nodal_forces[1]["Vz"]
'''
