ID, PROPERTY = "f03-member-sign", "F03"
NEEDS = "second order analysis of a compressed element with a load that is not zero at its far end and a hinge at an element end"
BREAKS = "second order stiffness of hinged compressed elements keeps first order coupling terms for the load condensation"
EDITS = [("metku/framefem/elements/ebbeam.py", '''            self.Krel['K11'] = K11
            self.Krel['K12'] = K12
            self.Krel['K21'] = K21
            self.Krel['K22'] = K22
            
            """
            print(rel,nrel)
            print('k0')
            print(k0)
            print('K22')
            print(K22)
            print('K11')
            print(K11)
            print('K12')
            print(K12)
            print('K21')
            print(K21)
            """
            
            #K221K21inv = np.linalg.inv(K22).dot(K21)
            
            kc = K11 - K12.dot(np.linalg.inv(K22).dot(K21))
            
            """
            print('kc = ')
            print(kc)
            print(kc.shape)
            """
            k0[np.ix_(nrel,nrel)] = kc
            k0[rel,:] = 0
            k0[:,rel] = 0
            #print(k0)
            

        return k0
    
    def second_order_stiffness''', '''            self.Krel['K11'] = K11
            self.Krel['K21'] = K21
            self.Krel['K22'] = K22
            
            """
            print(rel,nrel)
            print('k0')
            print(k0)
            print('K22')
            print(K22)
            print('K11')
            print(K11)
            print('K12')
            print(K12)
            print('K21')
            print(K21)
            """
            
            #K221K21inv = np.linalg.inv(K22).dot(K21)
            
            kc = K11 - K12.dot(np.linalg.inv(K22).dot(K21))
            
            """
            print('kc = ')
            print(kc)
            print(kc.shape)
            """
            k0[np.ix_(nrel,nrel)] = kc
            k0[rel,:] = 0
            k0[:,rel] = 0
            #print(k0)
            

        return k0
    
    def second_order_stiffness''')]
DEMO = '''
import math
from metku.framefem.framefem import FrameFEM, BeamSection, Material, LineLoad, PointLoad
from metku.framefem.elements.ebbeam import EBBeam
import io, contextlib
E, I, L, P, q = 210e3, 1e7, 5000.0, 400e3, -10.0
f = FrameFEM()
m, s = Material(E, 0.3, 7850e-9), BeamSection(5e3, I)
s.E = E
n = [f.add_node(0, 0), f.add_node(L, 0)]
f.add_element(EBBeam(n[0], n[1], s, m))
f.add_release(0, [5])
f.add_support(1, 0, [0, 1, 2]); f.add_support(1, 1, [1, 2])
f.add_load(LineLoad(2, f.elements[0], [0, 1], [q, q], 'y'))
f.add_load(PointLoad(2, n[1], [-P, 0, 0], 1.0))
f.add_loadcase(supp_id=1, load_id=2)
f.nodal_dofs()
with contextlib.redirect_stdout(io.StringIO()):
    f.second_order_analysis(lcase=2)
M = f.elements[0].fint2[2]['my'][0]
# fixed-pinned beam-column: M = qL^2/8 * amplification
k = math.sqrt(P / E / I); u = k * L / 2
phi = 3 * (math.tan(u) - u) / u ** 3
psi = 3 / (2 * u) * (1 / (2 * u) - 1 / math.tan(2 * u))
want = abs(q) * L * L / 8 * phi / psi
assert abs(abs(M) - want) < 1e-3 * want, (M, want)
'''
