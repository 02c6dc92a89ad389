ID, PROPERTY = "t03-stale-statics", "T03"
NEEDS = "a node moved after the calculation model was generated, then the statics matrix"
BREAKS = "the statics matrix is that of the original geometry"
EDITS = [("metku/framefem/framefem.py", "            b = el.transformation_matrix().transpose().dot(e)", "            b = el.L.transpose().dot(e)")]
DEMO = '''
import numpy as np
import metku.eurocodes.en1993
from metku.raami.raami_simple_truss import three_bar_truss
t = three_bar_truss(L=1000)
t.nodes[0].x = 300.0
t.calculate(support_method="REM", design=False)
N = np.array([m.NEd[t.load_ids[0]] for m in t.members.values()])
p = t.fem.statics_matrix() @ N
assert np.allclose(p, [100e3, 100e3], rtol=1e-4), p
'''
