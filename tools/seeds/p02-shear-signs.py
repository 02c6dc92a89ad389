ID = "p02-shear-signs"
PROPERTY = "P02"
NEEDS = "an internal support of sheeting whose shear forces on its two sides have opposite signs"
BREAKS = "the ratio beta_V takes the forces with their signs"
EDITS = [("metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py", "            VEd = [abs(V) for V in VEd]\n", "            VEd = sorted(VEd,key=abs,reverse=True)\n")]
DEMO = '''
import metku.eurocodes.en1993
from metku.eurocodes.en1993.en1993_1_3.en1993_1_3 import RwRd_two_webs
f = lambda V: RwRd_two_webs(350, 3., 1.0, 65, 130, 120, VEd=V)
assert abs(f([30., 24.])/f([30., -24.])-1) < 1e-9, (f([30., 24.]), f([30., -24.]))
assert abs(f([30., 24.])/f([-30., 24.])-1) < 1e-9
'''
