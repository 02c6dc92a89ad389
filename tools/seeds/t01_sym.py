ID, PROPERTY = "t01-mirrored-xloc", "T01"
NEEDS = "a joint with a symmetry joint that is moved along the chord after symmetry detection"
BREAKS = "the symmetry joint is moved in the same direction instead of being mirrored"
EDITS = [("metku/raami/raami_plane_truss.py", "            self.sym_joint.__xloc = -val\n", "            self.sym_joint.__xloc = val\n")]
DEMO = '''
from metku.raami.raami_plane_truss import SlopedTruss, TubularKGapJoint
t = SlopedTruss(L1=8000, L2=8000, dx1=1200, dx2=1200, h1=1500, h2=2000)
t.generate_topology("K", 3)
t.generate_supports(); t.generate_joints(); t.symmetry()
js = [j for j in t.joints.values() if isinstance(j, TubularKGapJoint) and j.sym_joint is not None]
j = js[0]
j.xloc = 30.0
assert abs(j.xp_coord[0] + j.sym_joint.xp_coord[0] - 16000) < 1e-6
assert abs(j.xp_coord[1] - j.sym_joint.xp_coord[1]) < 1e-6
'''
