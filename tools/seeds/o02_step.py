ID, PROPERTY = "o02-step-at-bound", "O02"
NEEDS = "linearization at a point with a continuous variable at its upper bound"
BREAKS = "the finite difference step leaves the bounds, where values are clamped for targets and linear functions, and the derivative is lost"
EDITS = [("metku/optimization/structopt.py", "                    h *= -1\n", "                    h *= 1\n")]
DEMO = '''
from metku.optimization.structopt import OptimizationProblem
from metku.optimization.variables import Variable
from metku.optimization.constraints import LinearConstraint, NonLinearConstraint
from metku.optimization.objective import ObjectiveFunction
class O: pass
o = O()
P = OptimizationProblem("p")
P.add(Variable("x", 0, 5, target={"property": "A", "objects": [o]}))
P.add(ObjectiveFunction("f", lambda x: 3 * o.A))
P.add(NonLinearConstraint(lambda x: o.A - 2, name="c"))
A, B, df, fx = P.linearize([5.0])
assert abs(df[0] - 3) < 1e-3 and abs(A[0, 0] - 1) < 1e-3, (A, df)
'''
