ID = "p02-shear-centre-product"
PROPERTY = "P02"
NEEDS = "an open profile without symmetry, so that both its product moment and its sectorial products do not vanish"
BREAKS = "the vertical coordinate of the shear centre (and the warping constant) of unsymmetric profiles"
EDITS = [("metku/eurocodes/en1993/en1993_1_3/open_prof.py", "z_sc = (-Iyw*Iy+Izw*Iyz)/d", "z_sc = -(Iyw*Iy+Izw*Iyz)/d")]
DEMO = '''
import math
import metku.eurocodes.en1993
from metku.eurocodes.en1993.en1993_1_3.open_prof import OpenProf
# the shear centre of an angle is at its corner in every position
for v in (0.0, 0.3, 1.1, 2.0):
    c, s = math.cos(v), math.sin(v)
    P = [[40*c+7, 40*s-3], [7, -3], [7-90*s, -3+90*c]]
    y, z = OpenProf(P, 2.0).shear_center()
    assert abs(y-7) < 1e-6 and abs(z+3) < 1e-6, (v, y, z)
'''
