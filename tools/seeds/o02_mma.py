ID, PROPERTY = "o02-mma-asymptote", "O02"
NEEDS = "an MMA approximation with asymptotes at different distances from the point and a negative derivative"
BREAKS = "the coefficient of the lower asymptote uses the distance to the upper one, so the approximation has a wrong gradient"
EDITS = [("metku/optimization/opt_functions.py", "                self.q[i] = -(Xk - Lk) ** 2 * self.dfk[i]\n", "                self.q[i] = -(Uk - Xk) * (Xk - Lk) * self.dfk[i]\n")]
DEMO = '''
import numpy as np
from metku.optimization.opt_functions import MMAFunction
f = MMAFunction([1.0, 2.0], 3.0, [-2.0, 1.0], [0.0, 0.0], [4.0, 4.0])
assert np.allclose(f.grad(np.array([1.0, 2.0])), [-2.0, 1.0]), f.grad(np.array([1.0, 2.0]))
'''
