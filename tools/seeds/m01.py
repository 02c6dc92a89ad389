ID, PROPERTY = "m01-kzz", "M01"
NEEDS = "open section of class 1 or 2 with a minor axis slenderness above 0.7"
BREAKS = "cap of the interaction factor kzz of open sections is applied before the 0.6 is subtracted"
EDITS = [("metku/eurocodes/en1993/en1993_1_1.py", "kz = Cmz * (1 + min(2 * slend - 0.6, 1.4) * UN / gammaM1)", "kz = Cmz * (1 + (min(2 * slend, 1.4) - 0.6) * UN / gammaM1)")]
DEMO = '''
from metku.eurocodes.en1993 import en1993_1_1 as ec
for sl, want in ((0.4, 0.2), (0.8, 1.0), (1.5, 1.4)):
    k = ec.kzz(0.5, sl, 0.9, section_class=1, profile="open")
    assert abs(k - 0.9 * (1 + want * 0.5)) < 1e-9, (sl, k)
'''
