ID, PROPERTY = "r04-crossing-one-side", "R04"
NEEDS = "two inclined members that cross where the first one has no other point, the second given in reverse"
BREAKS = "crossing members are not connected when the crossing is left of the start of the later one"
EDITS = [("metku/frame2d/frame2d.py", "            return [round(px, 5), round(py, 5)]", "            return [round(px, 5), round(py, 5)] if min(x3, x1) <= px <= max(x4, x2) else None")]
DEMO = '''
from metku.frame2d.frame2d import *
f = Frame2D()
a = SteelFrameMember([[4000, 4000], [0, 0]], profile='IPE 300', mtype='rigid', num_elements=3)
b = SteelFrameMember([[4000, 0], [0, 4000]], profile='IPE 300', mtype='rigid', num_elements=3)
f.add(a); f.add(b)
f.add(FixedSupport([0, 0])); f.add(FixedSupport([4000, 0]))
f.add(PointLoad([4000, 4000], [1e4, -1e4, 0]))
f.generate(); f.calculate()
na = {tuple(n.coord) for n in a.nodes.values()}
nb = {tuple(n.coord) for n in b.nodes.values()}
assert na & nb == {(2000.0, 2000.0)}, (na, nb)
'''
