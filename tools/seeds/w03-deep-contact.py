ID, PROPERTY = "w03-deep-contact", "W03"
NEEDS = "a glued laminated beam on a column more than 400 mm deep, contacts far apart"
BREAKS = "compression perpendicular to grain uses the factor 1.75 that only holds for contacts up to 400 mm"
EDITS = [("metku/structures/timber/timber_member.py", "            elif self.material.type == 'glt' and l <= 400:", "            elif self.material.type == 'glt' and l <= 500:")]
DEMO = '''
from metku.frame2d.frame2d import *
from metku.sections.timber.timber_section import TimberSection
from metku.materials.timber_data import T
def r(H):
    f = Frame2D()
    cs = [TimberFrameMember([[x, 0], [x, 3000]], TimberSection(140, H, material=T.GL30c), mtype="column") for x in (0, 9000)]
    b = TimberFrameMember([[0, 3000], [9000, 3000]], TimberSection(140, 600, material=T.GL30c), mtype="beam", Sj1=0, Sj2=0)
    for m in cs + [b]:
        f.add(m)
    for x in (0, 9000):
        f.add(FixedSupport([x, 0]))
    f.add(LineLoad(b, [-20, -20], "y"))
    f.generate()
    f.calculate()
    n = -cs[0].member.ned[-1]
    return b.member.check_perpendicular_compression() * (H + 30) * 140 * b.member.fc90d / n
# factor 1 for deep contacts, 1.75 for the others
assert abs(r(450) - 1) < 0.02, r(450)
assert abs(r(300) - 1 / 1.75) < 0.02, r(300)
'''
