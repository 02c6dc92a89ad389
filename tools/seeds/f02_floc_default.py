ID, PROPERTY = "f02-length-cache", "F02"
NEEDS = "analyse, move a node, analyse again with the same elements"
BREAKS = "the transformation from global to local coordinates is remembered from the first analysis"
EDITS = [("metku/framefem/elements/rod.py", '''        c = self.direction_cosines()
        #c = self.dcos
        L1 = np.hstack((c, np.zeros(len(c))))''', '''        if self.dcos is None or len(self.dcos) != self.dim:
            self.dcos = self.direction_cosines()
        c = self.dcos
        L1 = np.hstack((c, np.zeros(len(c))))'''),
         ("metku/framefem/elements/rod.py", '''        self.L = self.transformation_matrix()
''', '''        self.dcos = None
        self.L = self.transformation_matrix()
''')]
DEMO = '''
from metku.framefem.framefem import FrameFEM, BeamSection, Material, PointLoad
from metku.framefem.elements.rod import Rod
import numpy as np
def build(x):
    f = FrameFEM()
    m, s = Material(210e3, 0.3, 7850e-9), BeamSection(1e3, 1e6)
    n = [f.add_node(*c) for c in ((0, 0), (4000, 0), x)]
    f.add_element(Rod(n[0], n[2], s, m)); f.add_element(Rod(n[1], n[2], s, m))
    f.add_support(1, 0, [0, 1]); f.add_support(1, 1, [0, 1])
    f.add_load(PointLoad(2, n[2], [1e4, -3e4, 0], 1.0))
    f.add_loadcase(supp_id=1, load_id=2)
    f.nodal_dofs()
    return f, n
f, n = build((1000, 3000)); f.linear_statics(lcase=2)
n[2].x = 2500.0
f.linear_statics(lcase=2)
g, k = build((2500, 3000)); g.linear_statics(lcase=2)
a = [e.fint[2]['fx'][0] for e in f.elements]; b = [e.fint[2]['fx'][0] for e in g.elements]
assert np.allclose(a, b, rtol=1e-8), (a, b)
'''
