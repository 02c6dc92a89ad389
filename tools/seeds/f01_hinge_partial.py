ID, PROPERTY = "f01-hinged-load", "F01"
NEEDS = "a beam element hinged at both ends of the same element and carrying a line load"
BREAKS = "equivalent nodal loads of elements with two hinges: only the first released moment is condensed, so shears, reactions and displacements are wrong"
EDITS = [("metku/framefem/elements/ebbeam.py", """            #print(np.linalg.inv(self.Krel['K22']).dot(floc[rel]))
            floc[nrel] -= self.Krel['K12'].dot(np.linalg.inv(self.Krel['K22']).dot(floc[rel]))
            floc[rel] = 0            

        # Store local loads: all""", """            #print(np.linalg.inv(self.Krel['K22']).dot(floc[rel]))
            for i, j in enumerate(rel):
                # condense one released force at a time
                floc[nrel] -= self.Krel['K12'][:, i] * floc[j] / self.Krel['K22'][i, i]
            floc[rel] = 0            

        # Store local loads: all""")]
DEMO = '''
from metku.framefem.framefem import FrameFEM, BeamSection, Material, LineLoad
from metku.framefem.elements.ebbeam import EBBeam
f = FrameFEM()
m, s = Material(210e3, 0.3, 7850e-9), BeamSection(5e3, 1e7)
n = [f.add_node(x, y) for x, y in ((0, 0), (0, 3000), (4000, 3000), (4000, 0))]
for i in range(3):
    f.add_element(EBBeam(n[i], n[i + 1], s, m))
f.add_release(1, [2, 5])
f.add_support(1, 0, [0, 1, 2]); f.add_support(1, 3, [0, 1, 2])
f.add_load(LineLoad(2, f.elements[1], [0, 1], [-10, -30], 'y'))
f.add_loadcase(supp_id=1, load_id=2)
f.nodal_dofs()
f.linear_statics(lcase=2)
v = f.elements[1].fint[2]['fz']
L, a, b = 4000, 10, 30
want = [a * L / 2 + (b - a) * L / 6, -(a * L / 2 + (b - a) * L / 3)]
assert all(abs(x - w) < 1e-3 * L for x, w in zip(v, want)), (v, want)
'''
