ID, PROPERTY = "r04-hinge-element", "R04"
NEEDS = "a beam with a hinge at its second end only and at least two elements"
BREAKS = "the release of the second end is put to the last but one element"
EDITS = [("metku/frame2d/frame2d.py", """                if i == N - 2 and self.hinges[1]:
                    \"\"\" There is a hinge in the first end \"\"\"
                    fem_model.add_release(index, [5])
""", """                if i == max(N - 3, 0) and self.hinges[1]:
                    \"\"\" There is a hinge in the first end \"\"\"
                    fem_model.add_release(index, [5])
""")]
DEMO = '''
from metku.frame2d.frame2d import *
f = Frame2D()
a = SteelColumn([[0, 0], [0, 4000]], profile='HE 200 A')
b = SteelFrameMember([[0, 4000], [6000, 4000]], profile='IPE 300', mtype='rigid')
c = SteelColumn([[6000, 0], [6000, 4000]], profile='HE 200 A')
for m in (a, b, c):
    f.add(m)
b.add_hinge(1)
f.add(FixedSupport([0, 0])); f.add(FixedSupport([6000, 0]))
f.add(LineLoad(b, [-20, -20], 'y'))
f.generate()
f.calculate()
els = list(b.elements.values())
assert abs(els[-1].fint[LoadIDs.ULS]['my'][1]) < 1.0, [e.fint[LoadIDs.ULS]['my'] for e in els]
assert abs(els[-2].fint[LoadIDs.ULS]['my'][1]) > 1e6
'''
