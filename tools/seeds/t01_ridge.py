ID, PROPERTY = "t01-ridge-face", "T01"
NEEDS = "the chord-face FEM idealisation of a truss whose ridge joint is a K joint (K web)"
BREAKS = "the right brace of the ridge joint is attached to the extended left chord instead of the right chord"
EDITS = [("metku/raami/raami_plane_truss.py", "            vright = self.right_chord.dir_vector\n", "            vright = self.left_chord.dir_vector\n")]
DEMO = '''
from metku.raami.raami_plane_truss import SlopedTruss, TubularKGapJoint
t = SlopedTruss(L1=8000, L2=8000, dx1=1200, dx2=1200, h1=1500, h2=2000)
t.generate_topology("K", 3)
t.generate_supports(); t.generate_joints()
j = t.ridge_joint
f, c = j.brace_chord_face_x()
l, r = c[j.left_chord], c[j.right_chord]
assert abs(l[0] + r[0] - 16000) < 1e-6 and abs(l[1] - r[1]) < 1e-6, (l, r)
'''
