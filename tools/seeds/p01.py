ID, PROPERTY = "p01-effective-psi", "P01"
NEEDS = "an internal plate element whose stress ratio lies between 0 and 1, exclusive"
BREAKS = "the effective parts of the plate are placed at the wrong edges (the larger part at the more compressed edge)"
EDITS = [("metku/eurocodes/en1993/en1993_1_5.py", "        be[0] = 2 / (5 - psi) * beff\n        be[1] = beff - be[0]", "        be[1] = 2 / (5 - psi) * beff\n        be[0] = beff - be[1]")]
DEMO = '''
from metku.eurocodes.en1993 import en1993_1_5 as p
b, be = p.effective_width_internal(100.0, 0.5, 0.8)
assert abs(b - 80) < 1e-9 and abs(be[0] - 2 / 4.5 * 80) < 1e-9 and abs(sum(be) - 80) < 1e-9, (b, be)
'''
