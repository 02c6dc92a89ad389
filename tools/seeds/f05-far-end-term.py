ID, PROPERTY = "f05-far-end-term", "F05"
NEEDS = "both ends semi-rigid with different stiffnesses"
BREAKS = "rotation of the second joint uses the stiffness ratio of its own joint twice"
EDITS = [("metku/framefem/elements/eb_semi_rigid_beam.py", "                     -4 * gamma[1] * (1 + 3 * gamma[0])]", "                     -4 * gamma[1] * (1 + 3 * gamma[1])]")]
DEMO = '''
import numpy as np
from metku.framefem.framefem import FrameFEM, BeamSection
from metku.framefem.elements import EBSemiRigidBeam
f = FrameFEM()
f.add_node(0.0, 0.0); f.add_node(4000.0, 0.0)
m = f.add_material(210e3, 0.3, 7.85e-6); s = BeamSection(5e3, 8e7); f.add_section(s)
k0 = 210e3 * 8e7 / 4000.0
def K(a, b):
    e = EBSemiRigidBeam(f.nodes[0], f.nodes[1], s, m, rot_stiff=[a, b])
    return e.local_stiffness_matrix(210e3, 5e3, 8e7, 4000.0)
a = K(2 * k0, 5 * k0)
b = K(5 * k0, 2 * k0)
# flexibility of the rotations: beam and springs in series
L, EI = 4000.0, 210e3 * 8e7
F = np.array([[L / 3 / EI + 1 / (2 * k0), -L / 6 / EI], [-L / 6 / EI, L / 3 / EI + 1 / (5 * k0)]])
got = a[np.ix_([2, 5], [2, 5])]
assert np.allclose(got, np.linalg.inv(F), rtol=1e-9), (got, np.linalg.inv(F))
assert np.isclose(a[2, 2], b[5, 5]) and np.isclose(a[5, 5], b[2, 2])
'''
