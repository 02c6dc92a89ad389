ID, PROPERTY = "f04-minor-coupling", "F04"
NEEDS = "three-dimensional beam with different second moments of area, bent about its minor axis with rotation at both ends"
BREAKS = "end-to-end rotational coupling about the minor axis uses the major axis stiffness"
EDITS = [("metku/framefem/elements/ebbeam.py", "        k0[[5, 11], [11, 5]] = 2 * EI2 / Le\n", "        k0[[5, 11], [11, 5]] = 2 * EI1 / Le\n")]
DEMO = '''
import numpy as np
from metku.framefem.framefem import *
from metku.framefem.elements.ebbeam import EBBeam3D
from metku.sections.steel.RHS import RHS
from types import SimpleNamespace as NS
f = FrameFEM()
a = f.add_node(0, 0, 0); b = f.add_node(3000, 0, 0)
e = EBBeam3D(f.nodes[0], f.nodes[1], RHS(200, 100, 8), NS(young=210e3, shear_modulus=81e3, density=7850e-9))
k = e.local_stiffness_matrix()
L = 3000.0
# rigid rotation about the local z axis must be free of force
q = np.zeros(12); q[1] = 0; q[7] = 1.0; q[5] = q[11] = 1.0 / L
assert np.abs(k @ q).max() < 1e-6 * np.abs(k).max(), k @ q
'''
