ID, PROPERTY = "o01-potential-greater", "O01"
NEEDS = "a linear greater-than constraint that is violated or far from its limit when potentially active constraints are collected"
BREAKS = "a violated linear '>' constraint is classified as not potentially active"
EDITS = [("metku/optimization/constraints.py", "            if gval > self.pot_tol:\n", "            if abs(gval) > self.pot_tol:\n", 0)]
DEMO = '''
from metku.optimization.structopt import OptimizationProblem
from metku.optimization.variables import Variable
from metku.optimization.constraints import LinearConstraint
from metku.optimization.objective import LinearObjective
P = OptimizationProblem("p")
P.add(Variable("x", -10, 10)); P.add(Variable("y", -10, 10))
P.add(LinearObjective("f", [1, 1]))
c = LinearConstraint([1, 1], 5, con_type=">", name="c")
P.add(c)
c([1.0, 1.0])
assert c.potential
c([9.0, 9.0])
assert not c.potential
'''
