ID, PROPERTY = "o04-stress-side", "O04"
NEEDS = "the truss LP with different stress limits in compression and tension and a compressed member"
BREAKS = "compressed members of the truss LP are sized with the tension limit"
EDITS = [("metku/optimization/problems/truss_optimization.py", "            a[i] = -slb[i]\n            a[(j+1)*nmem+i] = -1", "            a[(j+1)*nmem+i] = -1")]
DEMO = '''
from metku.frame2d.simple_truss import SimpleTruss
from metku.frame2d.frame2d import PointLoad, XYHingedSupport
from metku.optimization.problems.truss_optimization import truss_lp
from metku.optimization.solvers.lp import LP
X = [[0.0, 0.0], [-2000.0, 2000.0], [2000.0, 2000.0]]
t = SimpleTruss(X, [[0, 1], [0, 2]], ["SHS 50x50x3.0"] * 2)
t.add(XYHingedSupport(X[1])); t.add(XYHingedSupport(X[2]))
t.add(PointLoad(X[0], [0, 4e5, 0], load_id=2))
t.generate(); t.calculate("all", support_method="REM")
f, x = LP().solve(truss_lp(t, 0, 1e5, slb=100.0, sub=200.0))
N = 4e5 / 2 ** 0.5
assert abs(x[0] - N / 100) < 1e-3 * x[0] and abs(x[1] - N / 100) < 1e-3 * x[1], x
'''
