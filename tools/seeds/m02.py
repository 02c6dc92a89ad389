ID, PROPERTY = "m02-tension-location", "M02"
NEEDS = "member that is in tension at one end and in compression elsewhere, with a bending moment"
BREAKS = "the beam-column interaction is skipped when the first section of the member is in tension"
EDITS = [("metku/structures/steel/steel_member.py", "        if self.NcEd < 0.0:\n            # print", "        if self.NcEd < 0.0 and self.ned[0] < 0.0:\n            # print")]
DEMO = '''
from metku.structures.steel.steel_member import SteelMember
from metku.sections.steel.RHS import RHS
m = SteelMember(RHS(150, 150, 6), 8000)
for x, n, my in ((0, 5e3, 0), (0.5, -300e3, 20e6), (1, -600e3, 5e6)):
    m.add_section(loc=x, ned=n, myed=my)
a = m.design()
k = SteelMember(RHS(150, 150, 6), 8000)
for x, n, my in ((1, 5e3, 0), (0.5, -300e3, 20e6), (0, -600e3, 5e6)):
    k.add_section(loc=x, ned=n, myed=my)
b = max(max(k.check_buckling()), max(k.check_beamcolumn()))
assert a >= b - 1e-9, (a, b)
'''
