ID, PROPERTY = "o03-stale-potential", "O03"
NEEDS = "a sequential method that linearizes only potentially active constraints, and a step that violates a constraint which was far from active before the step"
BREAKS = "constraints not flagged as potential at the previous point are taken as satisfied at the new one, so an infeasible point is claimed as the best feasible one"
EDITS = [("metku/optimization/solvers/optsolver.py", "            constr_vals.append(self.problem.cons[i](x))\n", "            con = self.problem.cons[i]\n            # constraints that are not potentially active are far from violated\n            constr_vals.append(con(x) if con.potential or con.type != '<' else -1.0)\n")]
DEMO = '''
import io, contextlib
from metku.optimization.structopt import OptimizationProblem
from metku.optimization.variables import DiscreteVariable
from metku.optimization.constraints import LinearConstraint
from metku.optimization.objective import LinearObjective
from metku.optimization.solvers.mislp import MISLP
P = OptimizationProblem("p")
P.add(DiscreteVariable("x", values=[0.0, 1.0, 5.0, 9.0]))
P.add(DiscreteVariable("y", values=[0.0, 2.0, 6.0]))
P.add(LinearObjective("f", [-1.0, -2.0]))
P.add(LinearConstraint([1.0, 1.0], 8.0, name="c"))
S = MISLP(move_limits=(1.0, 1.0), only_potential=True)
with contextlib.redirect_stdout(io.StringIO()):
    f, x = S.solve(P, x0=[0.0, 0.0], maxiter=6, log=False)
assert not S.feasible or x[0] + x[1] <= 8 + 1e-3, (f, x)
'''
