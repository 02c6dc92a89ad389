ID = "c01-creep-flexibility"
PROPERTY = "C01"
NEEDS = "long-term bending stiffness of a composite beam (creep): the centroid of the long-term section, not of the short-term one"
BREAKS = "the long-term stiffness takes the steel part about the short-term centroid, the concrete about the long-term one"
EDITS = [("metku/sections/composite/composite_beam.py", "EIcom = self.Ea*(self.Ia+self.ya_com(long_term)**2*self.Aa)", "EIcom = self.Ea*(self.Ia+self.ya_com()**2*self.Aa)")]
DEMO = '''
from metku.sections.steel.ISection import IPE
from metku.sections.composite.composite_beam import CompositeIBeam, ConcreteSlab
from metku.eurocodes.en1992 import constants
p = CompositeIBeam(9000, IPE(400), ConcreteSlab(140, constants.Concrete("C30/37")))
Ec = p.Ecc
hc, b = 140., p.beff
EA = 210e3*p.steel.A+Ec*hc*b
y = (210e3*p.steel.A*(140+p.steel.h/2)+Ec*hc*b*70)/EA
EI = 210e3*(p.steel.I[0]+p.steel.A*(140+p.steel.h/2-y)**2)+Ec*b*(hc**3/12+hc*(70-y)**2)
assert abs(p.EIcom("creep")/EI-1) < 1e-6, (p.EIcom("creep"), EI)
'''
