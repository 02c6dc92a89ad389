ID, PROPERTY = "x01-right-coupling", "X01"
NEEDS = "export of a truss with K joints in the model with eccentricity elements"
BREAKS = "the chord node is the slave of the coupling of the right brace"
EDITS = [("metku/raami/raami_plane_truss.py", "                    if n in joint.right_brace.fem_nodes:", "                    if n in joint.left_brace.fem_nodes:")]
DEMO = '''
import os, tempfile, shutil
import metku.eurocodes.en1993
from metku.raami.raami_plane_truss import SlopedTruss, TubularKGapJoint
from metku.sections.steel.RHS import SHS
t = SlopedTruss(L1=9000, L2=9000, dx1=1500, dx2=1500, h1=1200, h2=1700)
t.generate_topology("K", 3, SHS(150, 6), SHS(140, 5), SHS(80, 4), first_diagonal_up=True, edge_verticals=True, nel_chord=2, nel_brace=1)
t.generate_supports(); t.generate_joints()
t.generate_fem(model="ecc_elements")
d = tempfile.mkdtemp()
try:
    t.to_abaqus(d, "A", "P")
    s = open(os.path.join(d, "A_ABAQUS", "A.inp")).read().splitlines()
finally:
    shutil.rmtree(d)
got = {tuple(int(x.split(".")[1]) for x in s[i+1].split(",")[1:]) for i in range(len(s)) if s[i].startswith("*MPC")}
want = set()
for j in t.joints.values():
    if isinstance(j, TubularKGapJoint):
        for k, b in (("left_ecc", j.left_brace), ("right_ecc", j.right_brace)):
            e = j.fem_elements[k]
            a = [n for n in e.nodes if n in b.fem_nodes][0]
            c = [n for n in e.nodes if n is not a][0]
            want.add((a.nid+1, c.nid+1))
assert got == want, (got, want)
'''
