ID = "c01-bars-in-zone"
PROPERTY = "C01"
NEEDS = "a concrete filled tube whose rebars are within the zone of the neutral axis (small tubes, strong concrete, bars near the centroid)"
BREAKS = "the plastic moment of such tubes uses the neutral axis of the tube without bars"
EDITS = [("metku/sections/composite/composite_column.py", "            Asn = self.As\n            hn = (self.NpmRd() - Asn*(2*fsd-fcd))/(2*b*fcd + 4*t*(2*fyd-fcd))\n", "            Asn = self.As\n            hn = (self.NpmRd() - Asn*(fsd-fcd))/(2*b*fcd + 4*t*(2*fyd-fcd))\n")]
DEMO = '''
from metku.sections.steel.RHS import SHS
from metku.sections.composite.composite_column import ConcreteFilledTube
from metku.eurocodes.en1992 import en1992_1_1, constants
s = SHS(300, 6.3)
p = ConcreteFilledTube(4000, s, constants.Concrete("C50/60"), en1992_1_1.Rebar(12), rebar_pos=[40, 40])
fcd, fsd, fy, t, b = 50/1.5, 500/1.15, s.fy, s.T, s.B-2*s.T
As, z = 4*3.141592653589793*36, 40.
h = (fcd*p.Ac/2+fcd*As/2-fsd*As)/(4*t*fy+b*fcd)
assert h > z+6, h
# moments of the stress blocks between -h and h
M = p.Mpl_max_Rd()-fy*2*t*h*h-fsd*As*z-0.5*fcd*(b*h*h-As*z)
assert abs(p.MplRd()/M-1) < 1e-6, (p.MplRd(), M)
'''
