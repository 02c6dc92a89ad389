ID, PROPERTY = "o04-negative-limit", "O04"
NEEDS = "a displacement constraint of a truss whose upper limit is negative (a required uplift or drop)"
BREAKS = "an upper displacement limit below zero is taken as satisfied where it is violated and the other way round"
EDITS = [("metku/optimization/problems/truss_optimization.py", "                res = 1-u/uub\n", "                res = u/uub-1\n")]
DEMO = '''
from metku.frame2d.simple_truss import SimpleTruss
from metku.frame2d.frame2d import Frame2D, PointLoad, XYHingedSupport
from metku.optimization.problems.truss_optimization import TrussOptimization
X = [[0.0, 0.0], [-2000.0, 2000.0], [2000.0, 2000.0]]
t = SimpleTruss(X, [[0, 1], [0, 2]], ["SHS 50x50x3.0"] * 2)
t.add(XYHingedSupport(X[1])); t.add(XYHingedSupport(X[2]))
t.add(PointLoad(X[0], [0, -1e5, 0], load_id=2))
t.generate(); t.calculate("all", support_method="REM")
P = TrussOptimization(structure=t, constraints={"stress": True})
P.create_variables(lb=10, ub=1e5)
nd = [n for n in t.f.nodes if abs(n.coord[0]) < 1 and abs(n.coord[1]) < 1][0]
P.displacement_constraint(nd, "y", None, -1.0)
c = P.displacement_cons[0]
P.substitute_variables([500.0, 500.0])
t.calculate("all", support_method="REM")
u = nd.u[2][1]
assert u < -1.0, u
assert c([500.0, 500.0]) < 0, "u = %g fulfils u <= -1 but the constraint is %g" % (u, c([500.0, 500.0]))
'''
