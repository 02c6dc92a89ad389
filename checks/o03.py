"""O03: optimization solvers return solutions that are feasible, allowed, consistent and (where the method guarantees it) optimal."""
import os, sys, math, copy, itertools, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vm
import numpy as np
import scipy.optimize as so
from metku.optimization.structopt import OptimizationProblem
from metku.optimization.variables import Variable, IntegerVariable, BinaryVariable, IndexVariable, DiscreteVariable
from metku.optimization.constraints import LinearConstraint, NonLinearConstraint
from metku.optimization.objective import ObjectiveFunction, LinearObjective
from metku.optimization.solvers.lp import LP
from metku.optimization.solvers.milp import MILP
from metku.optimization.solvers.slp import SLP
from metku.optimization.solvers.mislp import MISLP
from metku.optimization.solvers.slsqp import SLSQP, COBYLA
from metku.optimization.solvers.trust_region import TrustRegionConstr
from metku.optimization.solvers.mma import MMA
from metku.optimization.solvers.bnb import BnB
from metku.optimization.solvers.pso import PSO
from metku.optimization.solvers.ga import GA
from metku.optimization.solvers.steepest import SteepestDescent

PROPERTY = "O03"
RULE = ("one case is one random problem (linear, mixed-integer linear, discrete linear, convex with a constructed optimum, sizing of a structure with analysis-dependent functions, or non-convex for the population methods), with locked variables and constraints of all types, "
        "solved by one of the solvers from a random start; feasibility claims, bounds, allowed values, objective values and histories are recomputed from the problem data and the optimum is compared with an independent solution (scipy linprog/enumeration, KKT construction, closed form). "
        "Non-trivial: distinct (solver, variable kinds, constraint types, locked, feasible or not).")
MONITORS = ["linear program", "infeasible linear program", "mixed-integer program", "discrete linear program", "bounds", "feasibility claim", "objective value", "allowed values", "convex optimum", "sizing optimum",
            "iteration history", "best of population", "best individual", "descent", "problem restored", "convex discrete", "move limits"]

CT = 1e-4


class Lin:
    """random bounded linear problem, data kept apart from the problem object"""

    def __init__(self, r, kinds, n=None, feasible=None, maxloc=2, typed=True):
        U = r.uniform
        self.n = n or r.randint(2, 5)
        self.P = OptimizationProblem("lin")
        self.dom = []
        kinds = kinds + [kinds[0]]
        for i in range(self.n):
            k = r.choice(kinds)
            if k == "c":
                lb = round(U(-6, 2), 2)
                ub = round(lb + U(0.5, 9), 2)
                self.P.add(Variable("x%d" % i, lb, ub))
                self.dom.append(("c", lb, ub, None))
            elif k == "i":
                lb = r.randint(-4, 2)
                ub = lb + r.randint(1, 5)
                self.P.add(IntegerVariable("x%d" % i, lb, ub))
                self.dom.append(("i", lb, ub, [float(v) for v in range(lb, ub + 1)]))
            elif k == "b":
                self.P.add(BinaryVariable("x%d" % i))
                self.dom.append(("b", 0, 1, [0.0, 1.0]))
            elif k == "x":
                m = r.randint(2, 5)
                self.P.add(IndexVariable("x%d" % i, values=["v%d" % j for j in range(m)]))
                self.dom.append(("x", 0, m - 1, [float(v) for v in range(m)]))
            else:
                vals = sorted(set(round(U(-5, 8), r.choice([1, 3, 4])) for _ in range(r.randint(2, 6))))
                if len(vals) < 2:
                    vals = [0.5, 2.0]
                self.P.add(DiscreteVariable("x%d" % i, values=list(vals)))
                self.dom.append(("d", vals[0], vals[-1], vals))
        # a point of the domain around which the constraints are made
        self.pt = [r.choice(d[3]) if d[3] else U(d[1], d[2]) for d in self.dom]
        self.locked = {}
        if r.random() < 0.4 and self.n > 2:
            for i in r.sample(range(self.n), min(r.randint(1, maxloc), self.n - 2)):
                self.locked[i] = self.pt[i]
        self.rows = []
        self.make_feasible = r.random() < 0.85 if feasible is None else feasible
        for _ in range(r.randint(1, 4)):
            a = [round(U(-4, 4), 2) if r.random() < 0.8 else 0.0 for _ in range(self.n)]
            t = r.choice(["<", "<", ">", "="]) if typed else "<"
            if t == "=" and (sum(1 for q in self.rows if q[1] == "=") or not any(d[0] == "c" and i not in self.locked and a[i] for i, d in enumerate(self.dom))):
                t = "<"
            v = float(np.dot(a, self.pt))
            s = U(0.05, 5) if self.make_feasible else U(-12, 1)
            b = {"<": v + s, ">": v - s, "=": v if self.make_feasible else v + U(-8, 8)}[t]
            self.rows.append((a, t, b))
        self.c = [round(U(-5, 5), 2) for _ in range(self.n)]
        self.sense = r.choice(["MIN", "MIN", "MAX"])

    def finish(self, r):
        self.P.add(LinearObjective("f", self.c, obj_type=self.sense))
        for k, (a, t, b) in enumerate(self.rows):
            bb = Variable("b%d" % k, -1e6, 1e6, value=b) if r.random() < 0.2 else b
            self.P.add(LinearConstraint(a, bb, con_type=t, name="c%d" % k))
        for i, v in self.locked.items():
            self.P.all_vars[i].lock(int(v) if self.dom[i][0] == "x" else v)
        self.free = [i for i in range(self.n) if i not in self.locked]
        return self

    def full(self, x):
        f = np.zeros(self.n)
        f[self.free] = x
        for i, v in self.locked.items():
            f[i] = v
        return f

    def f(self, xf):
        v = float(np.dot(self.c, xf))
        return v if self.sense == "MIN" else -v

    def viol(self, xf):
        w = 0.0
        for a, t, b in self.rows:
            g = float(np.dot(a, xf)) - b
            w = max(w, g if t == "<" else -g if t == ">" else abs(g))
        return w

    def relax(self, fixed):
        """LP with the variables of 'fixed' at given values; returns (f, x) or None"""
        bnd = [(fixed[i], fixed[i]) if i in fixed else (d[1], d[2]) for i, d in enumerate(self.dom)]
        c = np.array(self.c) * (1 if self.sense == "MIN" else -1)
        Au = [np.array(a) * (1 if t == "<" else -1) for a, t, b in self.rows if t != "="]
        bu = [b * (1 if t == "<" else -1) for a, t, b in self.rows if t != "="]
        Ae = [a for a, t, b in self.rows if t == "="]
        be = [b for a, t, b in self.rows if t == "="]
        s = so.linprog(c, A_ub=Au or None, b_ub=bu or None, A_eq=Ae or None, b_eq=be or None, bounds=bnd, method="highs")
        return (s.fun, s.x) if s.status == 0 else None

    def brute(self):
        """(optimum, second look): exact optimum over all discrete combinations and the tightest constraint margin met"""
        best, bx, margin = math.inf, None, math.inf
        disc = [i for i in self.free if self.dom[i][3]]
        cont = any(not self.dom[i][3] for i in self.free)
        for combo in itertools.product(*[self.dom[i][3] for i in disc]):
            fx = dict(self.locked)
            fx.update(zip(disc, combo))
            if cont:
                s = self.relax(fx)
                if s and s[0] < best:
                    best, bx = s[0], s[1]
            else:
                xf = np.array([fx[i] for i in range(self.n)])
                v = self.viol(xf)
                if 1e-9 < v < 1e-3:
                    margin = min(margin, v)
                if v <= 1e-9 and self.f(xf) < best:
                    best, bx = self.f(xf), xf
        return best, bx, margin

    def desc(self):
        return dict(dom=self.dom, rows=self.rows, c=self.c, sense=self.sense, locked=self.locked)

    def sig(self):
        return (tuple(sorted(d[0] for d in self.dom)), tuple(sorted(t for _, t, _ in self.rows)), len(self.locked), self.sense)


def check_solution(mon, L, x, f, tag, tol=1e-5, discrete=True, claim=True):
    xf = L.full(np.asarray(x, float))
    mon.ok("bounds", all(L.dom[i][1] - 2e-5 <= xf[i] <= L.dom[i][2] + 2e-5 for i in L.free), "%s x=%s" % (tag, xf))
    mon.close("objective value", f, L.f(xf), 1e-7, 1e-6, "%s f(x)" % tag)
    if claim:
        mon.ok("feasibility claim", L.viol(xf) <= tol, "%s violation %g" % (tag, L.viol(xf)))
    if discrete:
        for i in L.free:
            if L.dom[i][3]:
                mon.ok("allowed values", min(abs(v - xf[i]) for v in L.dom[i][3]) <= 1e-6, "%s x%d=%s of %s" % (tag, i, xf[i], L.dom[i][3]))
    return xf


def state(P):
    return [(v.lb, v.ub, v.locked) for v in P.all_vars], [(id(c), id(c.problem), c.type, tuple(c.a) if hasattr(c, "a") else None) for c in P.cons]


def w_lp(r, mon):
    algo = r.choice(["gurobi", "ortools", "ortools"])
    L = Lin(r, ["c"]).finish(r)
    mon.case(dict(L.desc(), algo=algo))
    want = L.relax(L.locked)
    st = state(L.P)
    S = LP(algo)
    S.solve(L.P)
    mon.ok("problem restored", state(L.P) == st, "LP changed the problem")
    if want is None:
        mon.ok("infeasible linear program", not S.feasible, "claims feasible, X=%s" % (S.X,))
    else:
        if mon.ok("linear program", bool(S.feasible) and len(S.X) == len(L.free), "feasible=%s X=%s" % (S.feasible, S.X)):
            xf = check_solution(mon, L, S.X, L.f(L.full(S.X)), "LP", discrete=False)
            mon.close("linear program", L.f(xf), want[0], 1e-6, 1e-5, "optimum")
            if S.best_x is not None:
                mon.close("objective value", S.best_f, L.f(L.full(S.best_x)), 1e-7, 1e-6, "LP best")
    mon.nontrivial(("LP", algo, L.sig(), want is None))


def w_milp(r, mon):
    L = Lin(r, ["i", "b", "x", "c"]).finish(r)
    mon.case(L.desc())
    best, bx, margin = L.brute()
    if margin < 1e-4:
        raise vm.CaseSkip("tolerance")
    S = MILP()
    S.solve(L.P)
    if bx is None:
        mon.ok("mixed-integer program", not S.feasible, "claims feasible, X=%s" % (S.X,))
    elif mon.ok("mixed-integer program", bool(S.feasible) and len(S.X) == len(L.free), "feasible=%s X=%s, optimum %s" % (S.feasible, S.X, bx)):
        xf = check_solution(mon, L, [round(v) if L.dom[i][3] else v for i, v in zip(L.free, S.X)], L.f(L.full(np.array([round(v) if L.dom[i][3] else v for i, v in zip(L.free, S.X)]))), "MILP", 1e-4)
        mon.close("mixed-integer program", L.f(xf), best, 2e-4, 1e-4, "optimum at %s" % bx)
    mon.nontrivial(("MILP", L.sig(), bx is None))


def w_bnb(r, mon):
    """branch and bound with exact LP relaxations against enumeration"""
    L = Lin(r, r.choice([["d", "i"], ["d"], ["i"], ["d", "i", "c"], ["b", "d"]]), n=r.randint(2, 4)).finish(r)
    free = [d for i, d in enumerate(L.dom) if i in L.free and d[3]]
    if not free:
        raise vm.CaseSkip("nothing discrete")
    mon.case(L.desc())
    best, bx, margin = L.brute()
    if margin < 1e-3:
        raise vm.CaseSkip("tolerance")
    st = state(L.P)
    B = BnB(L.P, lb_solver=LP(r.choice(["ortools", "ortools", "gurobi"])))
    if r.random() < 0.3:
        for v in L.P.vars:
            v.branch_priority = r.randint(0, 2)
    x0 = None if r.random() < 0.5 else [r.uniform(L.dom[i][1], L.dom[i][2]) for i in L.free]
    res = B.solve(L.P, x0=x0, maxiter=3000, verb=r.choice([0, 0, 1]))
    mon.ok("problem restored", state(L.P) == st, "BnB changed the problem: %s\n%s" % (st, state(L.P)))
    if bx is None:
        mon.ok("discrete linear program", not B.feasible and B.best_x is None, "claims a solution %s" % (B.best_x,))
    elif mon.ok("discrete linear program", B.best_x is not None and B.feasible, "no solution, optimum %s at %s" % (best, bx)):
        xf = check_solution(mon, L, B.best_x, B.best_f, "BnB", CT * 1.001)
        slack = 1e-3 * sum(abs(v) for v in L.c)    # values within DISC_TOL of an allowed value count as allowed
        mon.ok("discrete linear program", B.best_f <= best + slack + 1e-4 * max(1, abs(best)) and B.best_f >= best - slack - 1e-3 * max(1, abs(best)), "found %s at %s, optimum %s at %s" % (B.best_f, B.best_x, best, bx))
        mon.ok("objective value", res is not None and res[0] == B.best_f and np.array_equal(res[1], B.best_x), "returned %s" % (res,))
    mon.nontrivial(("BnB", L.sig(), bx is None, x0 is None))


def w_mislp(r, mon):
    """MISLP on linear discrete problems: one step with wide move limits is exact"""
    L = Lin(r, r.choice([["d", "i"], ["d"], ["i"], ["d", "i", "c"], ["x", "i"], ["d", "x", "c"]]), n=r.randint(2, 4), feasible=True).finish(r)
    L.P.obj.obj_type = "MIN"
    mon.case(L.desc())
    best, bx, margin = L.brute()
    if margin < 1e-3:
        raise vm.CaseSkip("tolerance")
    if bx is None:
        raise vm.CaseSkip("infeasible")
    if L.sense == "MAX":
        # linear objective evaluated with its sign
        L.P.obj.obj_type = "MAX"
    x0 = [float(r.choice(L.dom[i][3])) if L.dom[i][3] else r.uniform(L.dom[i][1], L.dom[i][2]) for i in L.free]
    pot = r.random() < 0.2
    S = MISLP(move_limits=(2.0, 2.0), gamma=1e-3, beta=r.choice([100, 100, 0]), only_potential=pot)
    f, x = S.solve(L.P, x0=x0, maxiter=r.randint(2, 8), log=r.random() < 0.5)
    history(mon, S, L, x0)
    if pot:
        # constraints far from active are left out of a step: only the claims are judged
        mon.note("MISLP potential")
        check_solution(mon, L, x, f, "MISLP", CT * 1.001, claim=S.feasible)
    elif mon.ok("discrete linear program", S.feasible, "MISLP no feasible solution, optimum %s at %s" % (best, bx)):
        check_solution(mon, L, x, f, "MISLP", CT * 1.001)
        mon.close("discrete linear program", f, best, 1e-4, 1e-3, "MISLP optimum at %s, got %s" % (bx, x))
    mon.nontrivial(("MISLP", L.sig()))


def history(mon, S, L, x0):
    """recorded iterates: objective values belong to the points and the best feasible one is returned"""
    if len(S.fvals) == len(S.xvals):
        mon.close("iteration history", S.fvals, [L.f(L.full(np.asarray(x, float))) for x in S.xvals], 1e-7, 1e-7, "objective of iterates")
    mon.close("iteration history", S.xvals[0], x0, 1e-12, 1e-12, "first point")
    feas = [L.f(L.full(np.asarray(x, float))) for x in S.xvals[1:] if L.viol(L.full(np.asarray(x, float))) <= CT * 0.999]
    if feas and S.feasible:
        mon.ok("iteration history", S.best_f <= min(feas) + 1e-9 * max(1, abs(min(feas))), "best %s but an iterate is feasible with %s" % (S.best_f, min(feas)))
    elif feas:
        mon.ok("iteration history", False, "an iterate is feasible but no solution is claimed")


def moves(mon, S, lb, ub, ml, relative=False, free=None):
    """steps of the sequential methods stay within the (shrinking) move limits"""
    low, up = np.array(ml, float)
    rng = np.array(ub, float) - np.array(lb, float)
    for a, b in zip(S.xvals, S.xvals[1:]):
        a, b = np.asarray(a, float), np.asarray(b, float)
        d = np.abs(a) if relative else rng
        t = 1e-6 * (1 + np.abs(a))
        sel = np.ones(len(a), bool) if free is None else np.array(free, bool)
        mon.ok("move limits", bool(np.all((b >= a - low * d - t)[sel]) and np.all((b <= a + up * d + t)[sel])), "step from %s to %s, limits %g %g" % (a, b, low, up))
        low, up = low * (1 - S.gamma), up * (1 - S.gamma)


def w_slp(r, mon):
    L = Lin(r, ["c"], feasible=True).finish(r)
    mon.case(L.desc())
    want = L.relax(L.locked)
    x0 = [r.uniform(L.dom[i][1], L.dom[i][2]) for i in L.free]
    ml = r.choice([2.0, 0.3, 0.1])
    mls = (ml, ml) if ml == 2 or r.random() < 0.5 else (ml, r.choice([0.05, 0.2]))
    S = SLP(move_limits=mls, gamma=r.choice([1e-3, 0.05]) if ml < 2 else 1e-3, beta=r.choice([100, 100, 0]) if ml == 2 else 100, update_beta=False)
    f, x = S.solve(L.P, x0=x0, maxiter=80, log=r.random() < 0.6)
    check_solution(mon, L, x, f, "SLP", CT * 1.001, discrete=False, claim=S.feasible)
    history(mon, S, L, x0)
    moves(mon, S, [L.dom[i][1] for i in L.free], [L.dom[i][2] for i in L.free], mls)
    if ml == 2:
        if mon.ok("linear program", S.feasible, "SLP finds no feasible point of a feasible linear program"):
            mon.close("linear program", f, want[0], 1e-5, 5e-4, "SLP optimum")
    mon.nontrivial(("SLP", L.sig(), ml))


class Convex:
    """convex problem built around a known solution (KKT conditions)"""

    def __init__(self, r, positive=False):
        U = r.uniform
        self.r = r
        n = self.n = r.randint(1, 4)
        A = np.array([[U(-1, 1) for _ in range(n)] for _ in range(n)])
        self.Q = A @ A.T + np.eye(n) * U(0.5, 2)
        self.lb = np.array([U(0.1, 1) if positive else U(-4, 0) for _ in range(n)])
        self.ub = self.lb + np.array([U(2, 6) for _ in range(n)])
        self.xs = self.lb + (self.ub - self.lb) * np.array([U(0.1, 0.9) for _ in range(n)])
        g = self.Q @ self.xs
        q = np.zeros(n)
        # bounds active at the solution
        for i in range(n):
            z = r.random()
            if z < 0.15:
                self.xs[i] = self.lb[i]
                q[i] = U(0.2, 2)
            elif z < 0.3:
                self.xs[i] = self.ub[i]
                q[i] = -U(0.2, 2)
        self.cons = []
        lag = -self.Q @ self.xs + q      # remaining gradient the linear term must provide
        for k in range(r.randint(0, 3)):
            t = r.choice(["<", "<", ">", "="])
            lin = r.random() < 0.5
            if t == "=":
                if any(c[0] == "=" for c in self.cons) or n < 2:
                    t = "<"
                else:
                    lin = True
            a = np.array([U(-2, 2) for _ in range(n)])
            if lin:
                fun, gr = (lambda x, a=a: float(a @ x)), a
            else:
                # convex function for '<', concave for '>'
                s = 1 if t == "<" else -1
                d = np.array([U(0.1, 1) for _ in range(n)])
                fun = lambda x, a=a, d=d, s=s: float(a @ x + s * d @ (np.asarray(x) ** 2))
                gr = a + 2 * s * d * self.xs
            active = t == "=" or r.random() < 0.6
            v = fun(self.xs)
            b = v if active else v + U(0.3, 3) * (1 if t == "<" else -1)
            mult = 0.0
            if active:
                mult = U(0.2, 2) * (1 if t == "<" else -1 if t == ">" else r.choice([-1, 1]))
            lag = lag - mult * gr
            self.cons.append((t, lin, a, fun, b))
        self.lin = lag           # f = 1/2 x'Qx + lin'x
        self.fs = self.f(self.xs)

    def f(self, x):
        x = np.asarray(x, float)
        return float(0.5 * x @ self.Q @ x + self.lin @ x)

    def viol(self, x):
        w = 0.0
        for t, lin, a, fun, b in self.cons:
            g = fun(np.asarray(x, float)) - b
            w = max(w, g if t == "<" else -g if t == ">" else abs(g))
        return w

    def problem(self, extra=True):
        """problem with additional locked variables in between"""
        r = self.r
        P = OptimizationProblem("cvx")
        self.pos = []
        nlock = r.choice([0, 0, 1, 2]) if extra else 0
        order = ["f"] * self.n + ["l"] * nlock
        r.shuffle(order)
        k = 0
        self.locks = {}
        for j, o in enumerate(order):
            if o == "f":
                P.add(Variable("x%d" % j, self.lb[k], self.ub[k]))
                self.pos.append(j)
                k += 1
            else:
                P.add(Variable("l%d" % j, -5, 5))
                self.locks[j] = r.uniform(-3, 3)
        pos = self.pos
        lk = self.locks
        w = {j: r.uniform(-1, 1) for j in lk}
        # the locked variables contribute terms that are cancelled by their known value
        P.add(ObjectiveFunction("f", lambda x: self.f([x[j] for j in pos]) + sum(w[j] * (x[j] - lk[j]) for j in lk)))
        for i, (t, lin, a, fun, b) in enumerate(self.cons):
            if lin:
                A = np.zeros(len(order))
                A[pos] = a
                bb = b
                for j in lk:
                    A[j] = w[j]
                    bb += w[j] * lk[j]
                P.add(LinearConstraint(A, bb, con_type=t, name="c%d" % i))
            else:
                P.add(NonLinearConstraint(lambda x, fun=fun, b=b: fun([x[j] for j in pos]) - b + sum(w[j] * (x[j] - lk[j]) for j in lk), con_type=t, name="c%d" % i))
        for j, v in lk.items():
            P.all_vars[j].lock(v)
        return P

    def desc(self):
        return dict(Q=self.Q, lin=self.lin, lb=self.lb, ub=self.ub, xs=self.xs, cons=[(t, lin, a, b) for t, lin, a, fun, b in self.cons], locks=self.locks)


def w_convex(r, mon):
    name = r.choice(["SLSQP", "SLSQP", "COBYLA", "TR", "MMA", "MMA"])
    C = Convex(r)
    if name == "MMA":
        # MMA sub-problems do not linearize equality constraints
        C.cons = [c for c in C.cons]
    P = C.problem()
    mon.case(dict(C.desc(), solver=name))
    x0 = [r.uniform(l, u) for l, u in zip(C.lb, C.ub)]
    if name == "SLSQP":
        S = SLSQP()
        f, x = S.solve(P, maxiter=200, x0=x0)
        ftol, ctol = 1e-3, 1e-4
    elif name == "COBYLA":
        S = COBYLA()
        f, x = S.solve(P, maxiter=3000, x0=x0)
        ftol, ctol = 0.1, 1e-3
    elif name == "TR":
        S = TrustRegionConstr()
        f, x = S.solve(P, maxiter=400, x0=x0)
        ftol, ctol = 1e-2, 1e-7
    else:
        S = MMA()
        f, x = S.solve(P, maxiter=60, x0=x0, log=r.random() < 0.5)
        ftol, ctol = 0.1, CT * 1.01     # subproblems without a line search may oscillate
    x = np.asarray(x, float)
    scale = max(1.0, abs(C.fs), np.abs(C.lin).max())
    if not np.isfinite(f):
        mon.note(name + " gave up")
        raise vm.CaseSkip("solver error")
    btol = 1e-3 if name == "COBYLA" else 1e-6     # COBYLA treats bounds as constraints
    mon.ok("bounds", name == "COBYLA" and not S.feasible or bool(np.all(x >= C.lb - btol) and np.all(x <= C.ub + btol)), "%s x=%s" % (name, x))
    mon.close("objective value", f, C.f(x), 1e-8, 1e-8, "%s f(x)" % name)
    mon.close("objective value", P.obj(x), C.f(x), 1e-8, 1e-8, "%s problem" % name)
    mon.note("%s feasible" % name if S.feasible else "%s infeasible" % name)
    if S.feasible:
        mon.ok("feasibility claim", C.viol(x) <= ctol * scale, "%s violation %g" % (name, C.viol(x)))
        mon.ok("convex optimum", f >= C.fs - 20 * ctol * scale, "%s f=%s below optimum %s" % (name, f, C.fs))
        mon.ok("convex optimum", f <= C.fs + ftol * scale, "%s f=%s optimum %s at %s, got %s" % (name, f, C.fs, C.xs, x))
    mon.nontrivial((name, C.n, tuple(sorted(c[0] + str(c[1]) for c in C.cons)), len(C.locks), bool(S.feasible)))


class Truss:
    """stand-in structure: bar areas, forces by load case"""

    def __init__(self, F):
        self.F = F
        self.bars = [Bar() for _ in F[0]]
        self.sig = {}
        self.n = 0

    def calculate(self, load_id, support_method="ZERO", design=True):
        self.n += 1
        for k in (range(len(self.F)) if load_id == "ALL" else [load_id]):
            self.sig[k] = [f / b.A for f, b in zip(self.F[k], self.bars)]


class Bar:
    A = 1.0


def w_sizing(r, mon):
    """minimum weight of bars with stress limits from analysis: closed-form optimum for continuous and discrete areas"""
    U = r.uniform
    n = r.randint(2, 4)
    ncase = r.choice([1, 1, 2])
    F = [[U(-50, 50) for _ in range(n)] for _ in range(ncase)]
    st = Truss(F)
    Lm = [U(1, 5) for _ in range(n)]
    fy = U(5, 20)
    disc = r.random() < 0.4
    name = "MISLP" if disc else r.choice(["SLP", "SLSQP", "MMA"])
    P = OptimizationProblem("truss", structure=st)
    need = [max(abs(f[i]) for f in F) / fy for i in range(n)]
    opt = []
    doms = []
    for i in range(n):
        if disc:
            vals = sorted(set(round(U(0.05, 12), 4) for _ in range(r.randint(4, 9))) | {15.0})
            P.add(DiscreteVariable("A%d" % i, values=list(vals), target={"property": "A", "objects": [st.bars[i]]}))
            opt.append(min(v for v in vals if v >= need[i] * (1 - 1e-5)))
            if any(abs(v - need[i]) < 1e-2 * need[i] for v in vals):
                raise vm.CaseSkip("tolerance")
            doms.append(vals)
        else:
            lb = U(0.05, 2)
            P.add(Variable("A%d" % i, lb, 15.0, target={"property": "A", "objects": [st.bars[i]]}))
            opt.append(max(lb, need[i]))
            doms.append((lb, 15.0))
    P.add(ObjectiveFunction("W", lambda x: sum(l * b.A for l, b in zip(Lm, st.bars))))
    mon.case(dict(F=F, fy=fy, L=Lm, doms=doms, solver=name))
    for k in range(ncase):
        for i in range(n):
            s = 1 if F[k][i] > 0 else -1
            lid = k if ncase > 1 else r.choice([k, None])
            typ = r.choice(["<", ">"])
            if typ == "<":
                P.add(NonLinearConstraint(lambda x, k=k, i=i, s=s: s * st.sig[k][i] / fy - 1, name="s%d%d" % (k, i), fea_required=True, **({} if lid is None else {"load_ids": lid} if False else {})))
            else:
                P.add(NonLinearConstraint(lambda x, k=k, i=i, s=s: 1 - s * st.sig[k][i] / fy, con_type=">", name="s%d%d" % (k, i), fea_required=True))
    x0 = [r.choice(d[-2:]) if disc else U(max(d[0], 0.8 * nd), d[1]) for d, nd in zip(doms, need)]
    if name == "SLP":
        rel = r.random() < 0.4
        S = SLP(move_limits=(0.2, 0.2), gamma=0.03, beta=10, update_beta=False, move_limit_type="relative" if rel else "range")
        f, x = S.solve(P, x0=x0, maxiter=120, log=False)
        moves(mon, S, [d[0] for d in doms], [d[1] for d in doms], (0.2, 0.2), rel)
        tol = 3e-2
    elif name == "MMA":
        S = MMA()
        f, x = S.solve(P, x0=x0, maxiter=60, log=False)
        tol = 2e-2
    elif name == "MISLP":
        S = MISLP(move_limits=(0.3, 0.3), gamma=1e-2)
        f, x = S.solve(P, x0=x0, maxiter=60, log=False)
        tol = None
    else:
        S = SLSQP()
        f, x = S.solve(P, x0=x0, maxiter=200)
        tol = 1e-3
    x = np.asarray(x, float)
    Wopt = sum(l * a for l, a in zip(Lm, opt))
    mon.note("%s sizing %s" % (name, "feasible" if S.feasible else "infeasible"))
    mon.close("objective value", f, sum(l * a for l, a in zip(Lm, x)), 1e-9, 1e-9, "%s weight" % name)
    mon.ok("bounds", all(d[0] - 1e-6 <= a <= d[-1] + 1e-6 for d, a in zip(doms, x)), "%s areas %s" % (name, x))
    if S.feasible:
        v = max(abs(F[k][i]) / x[i] / fy - 1 for k in range(ncase) for i in range(n))
        mon.ok("feasibility claim", v <= (2e-4 if name != "SLSQP" else 1e-3), "%s stress ratio exceeds by %g" % (name, v))
        if disc:
            mon.ok("allowed values", all(min(abs(q - a) for q in d) < 1e-9 for d, a in zip(doms, x)), "%s areas %s of %s" % (name, x, doms))
            mon.ok("sizing optimum", f >= Wopt * (1 - 1e-6), "%s W=%s below optimum %s" % (name, f, Wopt))
        else:
            mon.ok("sizing optimum", Wopt * (1 - 2e-3) <= f <= Wopt * (1 + tol), "%s W=%s optimum %s" % (name, f, Wopt))
    mon.nontrivial(("sizing", name, n, ncase, bool(S.feasible)))


def w_bnbqp(r, mon):
    """convex discrete problems, SLSQP relaxation: result allowed, feasible, and never below the enumerated optimum"""
    n = r.randint(2, 3)
    U = r.uniform
    A = np.array([[U(-1, 1) for _ in range(n)] for _ in range(n)])
    Q = A @ A.T + np.eye(n)
    P = OptimizationProblem("qp")
    doms = []
    for i in range(n):
        if r.random() < 0.5:
            vals = sorted(set(round(U(-4, 5), 2) for _ in range(r.randint(3, 5))) | {6.0})
            P.add(DiscreteVariable("x%d" % i, values=list(vals)))
        else:
            lb = r.randint(-4, 0)
            vals = [float(v) for v in range(lb, lb + r.randint(3, 6))]
            P.add(IntegerVariable("x%d" % i, int(vals[0]), int(vals[-1])))
        doms.append(vals)
    c = np.array([U(-3, 3) for _ in range(n)])
    f = lambda x: float(0.5 * np.asarray(x) @ Q @ np.asarray(x) + c @ np.asarray(x))
    P.add(ObjectiveFunction("f", f))
    pt = [r.choice(d) for d in doms]
    cons = []
    for k in range(r.randint(1, 3)):
        a = np.array([U(-2, 2) for _ in range(n)])
        t = r.choice(["<", ">"])
        b = float(a @ pt) + (U(0, 2) + 0.01) * (1 if t == "<" else -1)
        lin = r.random() < 0.6
        d = 0.0 if lin else U(0.05, 0.3)
        s = 1 if t == "<" else -1
        if not lin:
            b += s * d * float(np.dot(pt, pt))
        cons.append((t, a, d * s, b))
        if lin:
            P.add(LinearConstraint(a, b, con_type=t, name="c%d" % k))
        else:
            P.add(NonLinearConstraint(lambda x, a=a, d=d * s, b=b: float(a @ np.asarray(x) + d * np.dot(x, x)) - b, con_type=t, name="c%d" % k))

    def viol(x):
        x = np.asarray(x, float)
        return max([0.0] + [(float(a @ x + d * x @ x) - b) * (1 if t == "<" else -1) for t, a, d, b in cons])
    pts = [(f(x), x) for x in itertools.product(*doms) if viol(x) <= 1e-9]
    if any(1e-9 < viol(x) < 1e-3 for x in itertools.product(*doms)):
        raise vm.CaseSkip("tolerance")
    mon.case(dict(Q=Q, c=c, doms=doms, cons=cons))
    best, bx = min(pts)
    st = state(P)
    B = BnB(P, lb_solver=SLSQP())
    B.solve(P, x0=[r.uniform(d[0], d[-1]) for d in doms], maxiter=500)
    mon.ok("problem restored", state(P) == st, "BnB changed the problem")
    if B.best_x is not None:
        mon.close("objective value", B.best_f, f(B.best_x), 1e-9, 1e-9, "BnB")
        mon.ok("feasibility claim", viol(B.best_x) <= 1.01e-4, "BnB violation %g" % viol(B.best_x))
        mon.ok("allowed values", all(min(abs(q - a) for q in d) < 1e-6 for d, a in zip(doms, B.best_x)), "BnB %s of %s" % (B.best_x, doms))
        mon.ok("convex discrete", best - 1e-6 <= B.best_f <= best + 1e-3 * max(1, abs(best)), "BnB f=%s at %s, optimum %s at %s" % (B.best_f, B.best_x, best, bx))
    else:
        mon.ok("convex discrete", False, "no solution found, optimum %s at %s" % (best, bx))
    mon.nontrivial(("bnbqp", n, tuple(c[0] for c in cons)))


class seeded:
    """default generators of the population methods follow the case"""

    def __init__(self, r):
        self.s = r.randrange(2 ** 31)

    def __enter__(self):
        self.old, self.py, self.st = np.random.default_rng, random.getstate(), np.random.get_state()
        random.seed(self.s)
        np.random.seed(self.s)
        cnt = itertools.count(self.s)
        old = self.old
        np.random.default_rng = lambda *a: old(*a) if a else old(next(cnt))

    def __exit__(self, *a):
        np.random.default_rng = self.old
        random.setstate(self.py)
        np.random.set_state(self.st)


def w_population(r, mon):
    U = r.uniform
    name = r.choice(["PSO", "GA"])
    n = r.randint(2, 4)
    P = OptimizationProblem("pop")
    doms = []
    for i in range(n):
        k = r.choice("cdixx" if name == "GA" else "cdi")
        if k == "c":
            lb = U(-4, 0)
            d = (lb, lb + U(1, 6))
            P.add(Variable("x%d" % i, *d))
            doms.append((d, None))
        elif k == "d":
            vals = [round(U(-5, 5), 4) for _ in range(r.randint(2, 6))]
            P.add(DiscreteVariable("x%d" % i, values=vals))
            doms.append(((min(vals), max(vals)), vals))
        elif k == "i":
            lb = r.randint(-4, 1)
            ub = lb + r.randint(1, 5)
            P.add(IntegerVariable("x%d" % i, lb, ub))
            doms.append(((lb, ub), list(range(lb, ub + 1))))
        else:
            m = r.randint(2, 5)
            P.add(IndexVariable("x%d" % i, values=["v%d" % j for j in range(m)]))
            doms.append(((0, m - 1), list(range(m))))
    locked = {}
    if n > 2 and r.random() < 0.4:
        j = r.randrange(n)
        d = doms[j]
        locked[j] = r.choice(d[1]) if d[1] else U(*d[0])
    free = [i for i in range(n) if i not in locked]
    w = [U(-2, 2) for _ in range(n)]
    seen = []

    def fun(x):
        x = [float(v) for v in x]
        seen.append(tuple(x))
        return fval(x)

    def fval(x):
        return sum((v - a) ** 2 + a * math.cos(2 * v) for v, a in zip(x, w))
    cons = []
    P.add(ObjectiveFunction("f", fun))
    pt = [r.choice(d[1]) if d[1] else U(*d[0]) for d in doms]
    for j, v in locked.items():
        pt[j] = v
    for k in range(r.randint(0, 2)):
        a = [U(-2, 2) for _ in range(n)]
        t = r.choice(["<", ">"])
        b = float(np.dot(a, pt)) + (1 if t == "<" else -1) * U(0.2, 4)
        cons.append((t, a, b))
        if r.random() < 0.5:
            P.add(LinearConstraint(a, b, con_type=t, name="c%d" % k))
        else:
            P.add(NonLinearConstraint(lambda x, a=a, b=b: float(np.dot(a, x)) - b, con_type=t, name="c%d" % k))
    for j, v in locked.items():
        P.all_vars[j].lock(v)
    mon.case(dict(solver=name, doms=doms, locked=locked, cons=cons, w=w))

    def viol(x):
        return max([0.0] + [(float(np.dot(a, x)) - b) * (1 if t == "<" else -1) for t, a, b in cons])

    def full(x):
        q = [None] * n
        for i, v in zip(free, x):
            q[i] = float(v)
        for i, v in locked.items():
            q[i] = float(v)
        return q
    with seeded(r):
        if name == "PSO":
            S = PSO(pop_size=r.randint(3, 10))
            f, x = S.solve(P, maxiter=r.randint(1, 15))
        else:
            S = GA(pop_size=r.randint(4, 10), mutation_rate=r.choice([0.05, 0.3]))
            f, x = S.solve(P, maxiter=r.randint(1, 12))
    xf = full(x)
    mon.ok("bounds", len(x) == len(free) and all(doms[i][0][0] - 1e-9 <= xf[i] <= doms[i][0][1] + 1e-9 for i in free), "%s x=%s" % (name, x))
    mon.ok("allowed values", all(min(abs(v - xf[i]) for v in doms[i][1]) < 1e-9 for i in free if doms[i][1]), "%s x=%s" % (name, x))
    for p in seen:
        if not all(doms[i][0][0] - 1e-9 <= p[i] <= doms[i][0][1] + 1e-9 for i in range(n)) or not all(min(abs(v - p[i]) for v in doms[i][1]) < 1e-9 for i in range(n) if doms[i][1]):
            mon.ok("allowed values", False, "%s evaluated %s" % (name, p))
            break
    mon.ok("best individual", tuple(xf) in set(seen), "%s: returned point never evaluated" % name)
    if S.feasible:
        mon.close("objective value", f, fval(xf), 1e-9, 1e-9, name)
        mon.ok("feasibility claim", viol(xf) <= 1.01e-4, "%s violation %g" % (name, viol(xf)))
    ctol = 0.0
    feas = [fval(p) for p in set(seen) if viol(p) <= ctol]
    if name == "PSO":
        mon.ok("best of population", bool(S.feasible) or not feas, "feasible particle not found as best")
    if feas and S.feasible:
        mon.ok("best of population", f <= min(feas) + 1e-9, "%s best %s but %s was evaluated" % (name, f, min(feas)))
    mon.note("%s %s" % (name, "feasible" if S.feasible else "infeasible"))
    mon.nontrivial((name, tuple(sorted(str(bool(d[1])) for d in doms)), tuple(c[0] for c in cons), len(locked), bool(S.feasible)))


def w_descent(r, mon):
    U = r.uniform
    n = r.randint(1, 4)
    A = np.array([[U(-1, 1) for _ in range(n)] for _ in range(n)])
    Q = A @ A.T + np.eye(n)
    c = np.array([U(-5, 5) for _ in range(n)])
    f = lambda x: float(0.5 * x @ Q @ x + c @ x)
    x0 = np.array([U(-10, 10) for _ in range(n)])
    mon.case(dict(Q=Q, c=c, x0=x0))
    S = SteepestDescent(f, lambda x: Q @ x + c)
    S.solve(x0.copy(), maxiter=r.randint(2, 60))
    fs = f(-np.linalg.solve(Q, c))
    mon.close("descent", S.fvals, [f(x) for x in S.xvals], 1e-12, 1e-12, "values of the iterates")
    mon.ok("descent", all(b <= a + 1e-9 * max(1, abs(a)) for a, b in zip(S.fvals, S.fvals[1:])), "objective increases %s" % S.fvals)
    for a, b in zip(S.xvals, S.xvals[1:]):
        g = Q @ a + c
        d = b - a
        # exact line search along the gradient
        if np.linalg.norm(g) > 1e-6:
            mon.close("descent", d, -g * (g @ g) / (g @ Q @ g), 1e-5, 1e-6, "step from %s" % a)
    mon.nontrivial(("descent", n, len(S.xvals)))


WORKLOADS = {"lp": (w_lp, 1500, 30000), "milp": (w_milp, 500, 6000), "bnb": (w_bnb, 600, 8000), "mislp": (w_mislp, 500, 8000), "slp": (w_slp, 500, 8000), "convex": (w_convex, 800, 10000),
             "sizing": (w_sizing, 500, 6000), "bnbqp": (w_bnbqp, 150, 2000), "population": (w_population, 500, 8000), "descent": (w_descent, 500, 5000)}

if __name__ == "__main__":
    vm.main(globals())
