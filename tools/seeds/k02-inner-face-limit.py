ID = "k02-inner-face-limit"
PROPERTY = "K02"
NEEDS = "a sandwich panel whose inner face is between 0.70 and 0.74 mm thick: the limit holds for its steel core"
BREAKS = "the hole stiffness of such faces (and with it the fastener and diaphragm stiffness) takes the expression of thick faces"
EDITS = [("metku/sandwich/sandwich.py", "        if self.faces[1].tcor < 0.7:\n", "        if self.faces[1].t < 0.7:\n")]
DEMO = '''
import metku.eurocodes.en1993
from metku.sandwich.sandwich import *
k = lambda t: SandwichPanel([Face(0.6), Face(t)], Core(100, 3.7, 1e-7)).fastener_transverse_stiffness(6.0)
# stiffness is smooth below a core thickness of 0.7 mm
assert abs(k(0.72)-0.5*(k(0.71)+k(0.73))) < 0.002*k(0.72)
assert abs(k(0.705)-2*k(0.695)+k(0.685)) < 0.002*k(0.695), (k(.685), k(.695), k(.705))
'''
