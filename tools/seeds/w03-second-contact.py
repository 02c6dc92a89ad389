ID, PROPERTY = "w03-second-contact", "W03"
NEEDS = "two members besides the beam meet at one of its nodes (column below and column above)"
BREAKS = "only the stress of the first of them is used for all"
EDITS = [("metku/structures/timber/timber_member.py", "            return [get_sigma(om) for om in other_members]", "            return [get_sigma(other_members[0])] * len(other_members)")]
DEMO = '''
from metku.frame2d.frame2d import *
from metku.sections.timber.timber_section import TimberSection
from metku.materials.timber_data import T
res = []
for order in (0, 1):
    f = Frame2D()
    sec = lambda h: TimberSection(140, h, material=T.GL30c)
    low = [TimberFrameMember([[x, 0], [x, 3000]], sec(300), mtype="column") for x in (0, 9000)]
    up = [TimberFrameMember([[x, 3000], [x, 6000]], sec(300), mtype="column") for x in (0, 9000)]
    b = [TimberFrameMember([[0, y], [9000, y]], sec(600), mtype="beam", Sj1=0, Sj2=0) for y in (3000, 6000)]
    for m in (low + up + b if order else up + low + b):
        f.add(m)
    for x in (0, 9000):
        f.add(FixedSupport([x, 0]))
    for m in b:
        f.add(LineLoad(m, [-10, -10], "y"))
    f.generate()
    f.calculate()
    res.append(b[0].member.check_perpendicular_compression())
    n = -low[0].member.ned[-1]
    w = n / (330 * 140) / (1.75 * b[0].member.fc90d)
    assert abs(res[-1] - w) < 0.02 * w, (order, res[-1], w)
'''
