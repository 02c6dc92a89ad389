ID, PROPERTY = "r02-leading-load", "R02"
NEEDS = "a combination with three or more load cases of which two are variable"
BREAKS = "the last variable load case of a combination is the leading one instead of the first"
EDITS = [("metku/raami/frame_loads.py", """        for lc in load_cases:
            if not lc.load_type == 'DEAD':
                self.lead_variable_load = lc
                break
""", """        for lc in load_cases[::-1]:
            if not lc.load_type == 'DEAD':
                self.lead_variable_load = lc
                break
""")]
DEMO = '''
from metku.raami.raami import Raami
from metku.raami.frame_node import FrameNode
from metku.raami.frame_member import SteelFrameMember
from metku.raami.frame_supports import FixedSupport
from metku.raami.frame_loads import PointLoad, LoadCase, LoadCombination
from metku.sections.steel.RHS import RHS
r = Raami("d")
n = [FrameNode([0, 0]), FrameNode([4000, 0])]
for x in n: r.add(x)
m = SteelFrameMember(n, RHS(100, 100, 5), mem_type="beam", nel=4)
r.add(m); r.add(FixedSupport(n[0]))
lcs = []
for i, (t, p) in enumerate((("dead", 1000.), ("snow", 2000.), ("wind", 400.)), 1):
    l = PointLoad(n[1], [0, -p, 0], load_id=i, ltype=t, name=t)
    r.add(l)
    lc = LoadCase(i, [l]); r.add(lc); lcs.append(lc)
c = LoadCombination(9, "ULS", lcs); r.add(c); c.combine_loads()
r.generate_fem(); r.structural_analysis(9, design=False)
want = 1.15 * 1000 + 1.5 * 2000 + 1.5 * .6 * 400
got = abs(m.nodal_forces[9]["Vz"][0])
assert abs(got - want) < 1e-3, (got, want)
'''
