ID, PROPERTY = "s04-copy-dimensions", "S04"
NEEDS = "a copied profile"
BREAKS = "the thicknesses of a copied profile are exchanged"
EDITS = [("metku/profiles/steel/isections.py", "return ISection(self.name, self.h, self.b, self.tw, self.tf, self.r)", "return ISection(self.name, *self.dimensions)")]
DEMO = '''
import copy
from metku.profiles.steel import ISections
a = ISections.HEA200
b = copy.copy(a)
assert b == a and b.A == a.A and b.Iy == a.Iy
'''
