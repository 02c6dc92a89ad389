ID, PROPERTY = "o04-restricted-list-resistance", "O04"
NEEDS = "a truss MILP with a member whose own profile list does not begin with the first profiles of the common list, and a force between the resistances of the two"
BREAKS = "the resistances of a member with a restricted profile list are those of the first profiles of the common list"
EDITS = [("metku/optimization/problems/truss_milp.py", "            mem['NRd'] = [self.NRd[i] for i in profs]", "            mem['NRd'] = [self.NRd[i] for i, p in enumerate(profs)]")]
DEMO = '''
from metku.frame2d.simple_truss import SimpleTruss
from metku.frame2d.frame2d import PointLoad, XYHingedSupport
from metku.sections.steel import SHS
import metku.optimization.structopt as sop
from metku.optimization.problems.truss_milp import TrussMILP
from metku.optimization.solvers.milp import MILP
if not hasattr(sop, "LinearObjective"):
    from metku.optimization.objective import LinearObjective
    sop.LinearObjective = LinearObjective
X = [[0.0, 0.0], [-2000.0, 2000.0], [2000.0, 2000.0]]
t = SimpleTruss(X, [[0, 1], [0, 2]], ["SHS 50x50x3.0"] * 2)
t.add(XYHingedSupport(X[1])); t.add(XYHingedSupport(X[2]))
t.add(PointLoad(X[0], [0, -6e5, 0], load_id=2))
t.generate(); t.calculate("all", support_method="REM")
P = [SHS(50, 3), SHS(60, 4), SHS(100, 5), SHS(120, 6)]
M = TrussMILP("m", t, P, ulb=-50, uub=50, scaling={"N": 1e-3, "u": 1e-1}, member_profiles=[{"member": 0, "profiles": [2, 3]}])
M.create_milp()
S = MILP()
f, x = S.solve(M.milp)
assert S.feasible, "no design found although SHS 100x5 carries the force"
want = 2 * SHS(100, 5).weight() * 2000 * 2 ** 0.5
assert abs(f - want) < 1e-4 * want, (f, want)
'''
