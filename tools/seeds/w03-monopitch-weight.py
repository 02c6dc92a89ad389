ID, PROPERTY = "w03-monopitch-weight", "W03"
NEEDS = "self weight of a member with different heights at its ends"
BREAKS = "the self weight of mono-pitch members is uniform with the height of the start"
EDITS = [("metku/frame2d/frame2d.py", "                value2 = -1 * multiplier * self.cross_section.get_A(1) * self.rho * 1e-9", "                value2 = -1 * multiplier * self.A * self.rho * 1e-9")]
DEMO = '''
from metku.frame2d.frame2d import *
from metku.sections.timber.timber_section import PulpettiPalkki
from metku.materials.timber_data import T
f = Frame2D()
m = TimberFrameMember([[0, 0], [8000, 0]], PulpettiPalkki(140, 300, 700, material=T.GL30c), mtype="beam")
f.add(m)
f.add(XYHingedSupport([0, 0]))
f.add(YHingedSupport([8000, 0]))
f.generate(self_weight=True)
f.calculate()
v = m.member.vzed
tot = abs(v[0]) + abs(v[-1])
w = 10 * m.weight
assert abs(tot - w) < 1e-3 * w, (tot, w)
'''
