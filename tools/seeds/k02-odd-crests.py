ID = "k02-odd-crests"
PROPERTY = "K02"
NEEDS = "a diaphragm with seam fasteners in the crests and an odd number of corrugations per sheet"
BREAKS = "the factor beta_1 of such sheets (the one of troughs is used)"
EDITS = [("metku/structures/steel/stressed_skin.py", "beta1 = sum([(2*(i+1)/nf)**3 for i", "beta1 = sum([(2*(i+1)/(nf-1))**3 for i")]
DEMO = '''
import metku.eurocodes.en1993
from metku.eurocodes.en1993.en1993_1_3.trapezoidal import TrapezoidalSheet
from metku.structures.steel.stressed_skin import StressedSkin
for n, b in ((2, .13), (3, .30), (4, .44), (5, .58), (6, .71), (7, .84)):
    s = StressedSkin(TrapezoidalSheet(1.0, 50, 60, 60, 70, ntroughs=n), 1e4, 5e3, 3, {'d': 4.8, 'spacing': 500, 'loc': 'crest'})
    assert abs(s.beta1()-b) < 0.011, (n, s.beta1())
'''
