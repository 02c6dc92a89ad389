ID, PROPERTY = "s03-class3-psi", "S03"
NEEDS = "a web in bending with a small axial tension or compression such that the elastic stress ratio lies just below -1, with a slender web near the class 3 limit"
BREAKS = "class 3 limit of webs with stress ratio below -1 uses the branch for ratios above -1"
EDITS = [("metku/eurocodes/en1993/en1993_1_1.py", "        if p > -1:\n            if r <= 42.0", "        if p > -1.5:\n            if r <= 42.0")]
DEMO = '''
from metku.eurocodes.en1993 import en1993_1_1 as ec
# psi = -1.2: limit 62 e (1 - psi) sqrt(-psi) = 149.4 ; 42/(0.67+0.33 psi) = 153.3
assert ec.internal_part_comp_bend(151.0, 1.0, 0.5, -1.2) == 4
assert ec.internal_part_comp_bend(149.0, 1.0, 0.5, -1.2) == 3
'''
