ID, PROPERTY = "w03-rigid-after-hinge", "W03"
NEEDS = "joints are hinged and then made rigid again on an existing frame"
BREAKS = "the second ends of the beams stay hinged"
EDITS = [("metku/frame2d/frame2d.py", "                member.Sj1 = np.inf\n                member.Sj2 = np.inf\n\n    def hinge_joints", "                member.Sj1 = np.inf\n                member.alpha2 = member.alpha1\n\n    def hinge_joints")]
DEMO = '''
from metku.frame2d.frame2d import *
from metku.sections.timber.timber_section import TimberSection
from metku.materials.timber_data import T
f = Frame2D()
cs = [TimberFrameMember([[x, 0], [x, 3000]], TimberSection(140, 300, material=T.GL30c), mtype="column") for x in (0, 9000)]
b = TimberFrameMember([[0, 3000], [9000, 3000]], TimberSection(140, 600, material=T.GL30c), mtype="beam")
for m in cs + [b]:
    f.add(m)
for x in (0, 9000):
    f.add(FixedSupport([x, 0]))
f.add(LineLoad(b, [-20, -20], "y"))
f.generate()
f.calculate()
m0 = list(b.member.myed)
f.hinge_joints()
f.calculate()
assert max(abs(b.member.myed[0]), abs(b.member.myed[-1])) < 1e-3 * abs(m0[0])
f.rigid_joints()
f.calculate()
assert all(abs(a - c) < 1e-6 * abs(m0[0]) for a, c in zip(m0, b.member.myed)), (m0, b.member.myed)
'''
