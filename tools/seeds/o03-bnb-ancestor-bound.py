ID, PROPERTY = "o03-bnb-ancestor-bound", "O03"
NEEDS = "a variable branched upwards twice on the way to a node, the earlier branching with the weaker limit"
BREAKS = "branching limits of an ancestor overwrite the tighter limit of the node, so the node is explored with too wide bounds and branch and bound does not finish"
EDITS = [("metku/optimization/solvers/bnb.py", "                    bnode.data.var.lb = max(bnode.data.var.lb,bnode.data.lim)                \n        \n        #for var in self.problem.vars:\n        #    if var.lb", "                    bnode.data.var.lb = bnode.data.lim\n        \n        #for var in self.problem.vars:\n        #    if var.lb")]
DEMO = '''
import io, contextlib
import itertools
from metku.optimization.structopt import OptimizationProblem
from metku.optimization.variables import IntegerVariable
from metku.optimization.constraints import LinearConstraint
from metku.optimization.objective import LinearObjective
from metku.optimization.solvers.lp import LP
from metku.optimization.solvers.bnb import BnB
import random
r = random.Random(3)
for k in range(40):
    n = 3
    w = [r.randint(2, 30) for _ in range(n)]
    c = [r.randint(2, 30) for _ in range(n)]
    cap = r.randint(20, 130) + 0.5
    P = OptimizationProblem("p")
    for i in range(n):
        P.add(IntegerVariable("x%d" % i, 0, 6))
    P.add(LinearObjective("f", c))
    P.add(LinearConstraint(w, cap, con_type=">", name="c"))
    pts = [x for x in itertools.product(range(7), repeat=n) if sum(a * b for a, b in zip(w, x)) >= cap]
    if not pts:
        continue
    best = min(sum(a * b for a, b in zip(c, x)) for x in pts)
    B = BnB(P, lb_solver=LP("ortools"))
    with contextlib.redirect_stdout(io.StringIO()):
        B.solve(P, maxiter=400)
    assert abs(B.best_f - best) < 1e-3, (k, B.best_f, best)
    assert not B.nodes, "search not finished"
'''
