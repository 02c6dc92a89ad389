"""O02: penalty, barrier and Lagrangian functions, linearization, CONLIN and MMA approximations, discrete neighbourhoods."""
import os, sys, math, copy, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vm
sys.path.insert(0, vm.VERIF)
import numpy as np
from metku.optimization.structopt import OptimizationProblem
from metku.optimization.variables import Variable, IntegerVariable, BinaryVariable, IndexVariable, DiscreteVariable
from metku.optimization.constraints import LinearConstraint, NonLinearConstraint
from metku.optimization.objective import ObjectiveFunction
from metku.optimization.opt_functions import NumGrad, conlin_fun, mma_fun, MMAFunction, Linearize

PROPERTY = "O02"
RULE = ("one case is one random problem (1-5 variables, bounded or unbounded, some locked or index variables; smooth constraints of every type with analytic derivatives, some depending on a structural analysis) at a random point, feasible or not; "
        "penalty, barrier and augmented Lagrangian values, multiplier updates, linearizations, CONLIN and MMA approximations and discrete neighbourhoods are compared with formulas evaluated from the problem definition and with the mathematical relations they must satisfy. "
        "Non-trivial: distinct (constraint types, bounds, locked variables, feasible or not, operation).")
MONITORS = ["exact penalty", "exterior penalty", "barrier", "augmented Lagrangian", "multiplier update", "linearization", "linearization point", "potentially active rows", "numerical gradient", "convex approximation", "approximation at the point",
            "approximate problem", "asymptotes", "neighbourhood", "problem unchanged"]

BIG = 1e8


class Fun:
    """smooth function with derivatives; index variables enter with their index"""

    def __init__(self, r, n, pos=False):
        U = r.uniform
        self.k = r.choice(["quad", "rec", "exp"]) if pos else r.choice(["quad", "sin", "exp"])
        self.c, self.a, self.b = U(-3, 3), np.array([U(-2, 2) for _ in range(n)]), np.array([U(-1, 1) for _ in range(n)])

    def __call__(self, x):
        x = np.asarray(x, float)
        g = {"quad": lambda: x * x, "sin": lambda: np.sin(x), "exp": lambda: np.exp(0.3 * x), "rec": lambda: 1 / x}[self.k]()
        return float(self.c + self.a @ x + self.b @ g)

    def grad(self, x):
        x = np.asarray(x, float)
        d = {"quad": lambda: 2 * x, "sin": lambda: np.cos(x), "exp": lambda: 0.3 * np.exp(0.3 * x), "rec": lambda: -1 / x ** 2}[self.k]()
        return self.a + self.b * d


class Stru:
    """structural analysis that keeps the values it was made for"""

    def __init__(self):
        self.vals = {}
        self.seen = {}

    def calculate(self, load_id, support_method="ZERO", design=True):
        self.seen[load_id] = dict(self.vals)


class Slot:
    def __init__(self, st, i):
        self.__dict__["st"], self.__dict__["i"] = st, i

    def __setattr__(self, k, v):
        self.st.vals[self.i] = v


def make(r, mon, pos=False, kinds=("cont",), lock=True, fea=True, unbounded=True):
    """random problem with its plain description"""
    U = r.uniform
    n = r.randint(1, 5)
    P = OptimizationProblem("p")
    st = Stru()
    P.structure = st
    D = dict(lb=[], ub=[], kind=[], lock=[None] * n)
    for i in range(n):
        k = r.choice(kinds)
        lb = U(0.2, 1.0) if pos else U(-4, 1)
        ub = lb + U(1, 6)
        tgt = {"property": "x", "objects": [Slot(st, i)]}
        if k == "index":
            nv = r.randint(2, 6)
            lb, ub = 0, nv - 1
            # the profile is its own index, so that the analysis sees a number
            v = IndexVariable("x%d" % i, values=list(range(nv)), target=tgt)
        else:
            if unbounded and r.random() < 0.15:
                lb = -BIG
            if unbounded and r.random() < 0.15:
                ub = BIG
            v = Variable("x%d" % i, lb, ub, target=tgt)
        D["lb"].append(lb)
        D["ub"].append(ub)
        D["kind"].append(k)
        P.add(v)
    if lock:
        for i in range(n):
            if n - sum(v is not None for v in D["lock"]) > 1 and r.random() < 0.2:
                val = point1(r, D, i)
                P.all_vars[i].lock(val)
                D["lock"][i] = val
    f = Fun(r, n, pos)
    f.fea = fea and r.random() < 0.4

    def full(x):
        return [float(v) for v in x]
    P.add(ObjectiveFunction("f", (lambda x: f([st.seen["ALL"][i] for i in range(n)])) if f.fea else (lambda x: f(full(x))), fea_required=f.fea))
    D["f"] = f
    D["cons"] = []
    for j in range(r.randint(0, 4)):
        typ = r.choice("<>=")
        if r.random() < 0.35:
            a = np.array([r.choice([0, 1, U(-2, 2)]) for _ in range(n)])
            b = U(-3, 3)
            P.add(LinearConstraint(a=a, b=b, con_type=typ, name="c%d" % j))
            D["cons"].append(dict(kind="lin", type=typ, f=lambda x, a=a, b=b: float(a @ np.asarray(x, float) - b), g=lambda x, a=a: a))
        else:
            g = Fun(r, n, pos)
            cf = fea and r.random() < 0.4
            lid = r.choice(["ALL", 1])
            fun = (lambda x, g=g, lid=lid: g([st.seen[lid][i] for i in range(n)])) if cf else (lambda x, g=g: g(full(x)))
            kw = dict(fea_required=True, load_ids=[lid]) if cf else {}
            P.add(NonLinearConstraint(con_fun=fun, con_type=typ, name="c%d" % j, **kw))
            D["cons"].append(dict(kind="non", type=typ, f=g, g=g.grad))
    D["n"] = n
    D["free"] = [i for i in range(n) if D["lock"][i] is None]
    mon.case(dict(lb=D["lb"], ub=D["ub"], kind=D["kind"], lock=D["lock"], cons=[(c["kind"], c["type"]) for c in D["cons"]], fea=f.fea))
    return P, D


def point1(r, D, i):
    lb, ub = D["lb"][i], D["ub"][i]
    if D["kind"][i] == "index":
        return r.randint(lb, ub)
    a = lb if lb > -BIG else -3.0
    b = ub if ub < BIG else a + 4.0 if lb > -BIG else 3.0
    a = min(a, b - 1)
    a = max(a, lb)
    return r.choice([r.uniform(a, b), r.uniform(a, b), r.uniform(a, b), a, b])


def point(r, D, outside=False):
    x = [point1(r, D, i) for i in D["free"]]
    if outside:
        x = [v + r.choice([0, 0, -7.0, 7.0]) if D["kind"][i] != "index" else v for v, i in zip(x, D["free"])]
    return np.array(x, float)


def full(D, x):
    it = iter(x)
    return np.array([v if v is not None else float(next(it)) for v in D["lock"]], float)


def bounds(D):
    """[(position among free variables, sign, bound)] of real bounds: sign*(x-b) <= 0"""
    out = []
    for k, i in enumerate(D["free"]):
        if D["lb"][i] > -BIG:
            out.append((k, -1.0, D["lb"][i]))
        if D["ub"][i] < BIG:
            out.append((k, 1.0, D["ub"][i]))
    return out


def sig(D, op, *a):
    return (op, D["n"], tuple(sorted((c["kind"], c["type"]) for c in D["cons"])), any(v is not None for v in D["lock"]), "index" in D["kind"], len(bounds(D))) + a


def w_penalty(r, mon):
    P, D = make(r, mon)
    out = not any(c["kind"] == "lin" for c in D["cons"]) and not D["f"].fea and r.random() < 0.5 and not any(con.fea_required for con in P.cons)
    R, p = r.choice([1.0, 10.0, r.uniform(0.5, 200)]), r.choice([2, 2, 3, 1])
    E, X = P.exact_penalty_fun(R), P.exterior_penalty_fun(R, p)
    E1 = P.exact_penalty_fun()
    for _ in range(3):
        x = point(r, D, out)
        xf = full(D, x)
        viol = [{"<": max(0, c["f"](xf)), ">": max(0, -c["f"](xf)), "=": abs(c["f"](xf))}[c["type"]] for c in D["cons"]]
        bv = [max(0, s * (x[k] - b)) for k, s, b in bounds(D)]
        d = "x=%s violations=%s bounds=%s R=%s p=%s" % (list(x), viol, bv, R, p)
        e = E(x)
        mon.close("exact penalty", e, R * (sum(viol) + sum(bv)), 1e-7, 1e-7, d)
        mon.close("exact penalty", E1(x), sum(viol) + sum(bv), 1e-7, 1e-7, d + " R=1")
        mon.close("exterior penalty", X(x), D["f"](xf) + R * sum(v ** p for v in viol + bv), 1e-7, 1e-7, d)
        mon.ok("exact penalty", e >= -1e-12 and (e <= 1e-9) == (max(viol + bv + [0]) <= 1e-9 / R), d)
        mon.nontrivial(sig(D, "penalty", p, max(viol + [0]) > 0))


def w_barrier(r, mon):
    P, D = make(r, mon)
    x = point(r, D)
    xf = full(D, x)
    for k, i in enumerate(D["free"]):
        if x[k] in (D["lb"][i], D["ub"][i]):
            raise vm.CaseSkip("on the boundary")
    # move the constraints so that x is strictly feasible
    for c, con in zip(D["cons"], P.cons):
        if c["type"] == "=":
            continue
        g = c["f"](xf)
        want = r.uniform(0.05, 3) * (-1 if c["type"] == "<" else 1)
        if c["kind"] == "lin":
            con.b += g - want
            old = c["f"]
            c["f"] = lambda y, old=old, s=g - want: old(y) - s
        else:
            c["f"].c += want - g
    typ = r.choice(["log", "inverse"])
    R = r.uniform(0.5, 100)
    B = P.barrier_fun(R, typ)
    w = D["f"](xf)
    for c in D["cons"]:
        if c["type"] != "=":
            m = abs(c["f"](xf))
            w += (-math.log(m) if typ == "log" else 1 / m) / R
    w += sum(1 / abs(x[k] - b) for k, s, b in bounds(D)) / R
    mon.close("barrier", B(x), w, 1e-6, 1e-6, "%s x=%s R=%s" % (typ, list(x), R))
    big = P.barrier_fun(1e12, typ)(x)
    mon.close("barrier", big, D["f"](xf), 1e-6, 1e-6, "vanishing barrier")
    mon.nontrivial(sig(D, "barrier", typ))


def w_lagrangian(r, mon):
    P, D = make(r, mon)
    x = point(r, D)
    xf = full(D, x)
    Ri, Re = r.choice([1.0, r.uniform(0.3, 30)]), r.choice([1.0, r.uniform(0.3, 30)])
    mult, lbm, ubm = [], {}, {}
    for c, con in zip(D["cons"], P.cons):
        con.mult = r.uniform(-3, 3) if c["type"] == "=" else r.choice([0.0, r.uniform(0, 5)])
        mult.append(con.mult)
    for k, v in enumerate(P.vars):
        v.lb_mult, v.ub_mult = r.choice([0.0, 1.0, r.uniform(0, 5)]), r.choice([0.0, 1.0, r.uniform(0, 5)])
        lbm[k], ubm[k] = v.lb_mult, v.ub_mult
    A = P.augmented_lagrangian(Ri, Re)

    def L(x):
        xf = full(D, x)
        w = D["f"](xf)
        for c, m in zip(D["cons"], mult):
            g = c["f"](xf)
            if c["type"] == "=":
                w += -m * g + Re * g * g
            else:
                g = g if c["type"] == "<" else -g
                w += Ri * max(0.5 * m / Ri + g, 0) ** 2
        for k, s, b in bounds(D):
            m = ubm[k] if s > 0 else lbm[k]
            w += Ri * max(0.5 * m / Ri + s * (x[k] - b), 0) ** 2
        return w
    d = "x=%s mult=%s bounds=%s Ri=%s Re=%s" % (list(x), mult, (lbm, ubm), Ri, Re)
    mon.close("augmented Lagrangian", A(x), L(x), 1e-7, 1e-7, d)
    x2 = point(r, D)
    P.update_lag_mult(x2, Ri, Re)
    x2f = full(D, x2)
    # the gradient of the augmented Lagrangian equals that of the Lagrangian with the updated multipliers
    grad = D["f"].grad(x2f)[D["free"]].copy()
    for c, con, m in zip(D["cons"], P.cons, mult):
        g = c["f"](x2f)
        if c["type"] == "=":
            new, s = m - 2 * Re * g, -1
        elif c["type"] == "<":
            new, s = max(m + 2 * Ri * g, 0), 1
        else:
            new, s = max(m - 2 * Ri * g, 0), -1
        mon.close("multiplier update", con.mult, new, 1e-7, 1e-7, d + " constraint %s" % c["type"])
        grad += s * con.mult * np.asarray(c["g"](x2f))[D["free"]]
    nb = {(k, s): (max((ubm[k] if s > 0 else lbm[k]) + 2 * Ri * s * (x2[k] - b), 0)) for k, s, b in bounds(D)}
    for k, v in enumerate(P.vars):
        mon.close("multiplier update", v.lb_mult, nb.get((k, -1.0), lbm[k]), 1e-7, 1e-7, d + " lower bound of %d" % k)
        mon.close("multiplier update", v.ub_mult, nb.get((k, 1.0), ubm[k]), 1e-7, 1e-7, d + " upper bound of %d" % k)
    for (k, s), m in nb.items():
        grad[k] += s * m
    h = 1e-6
    num = np.array([(L(x2 + h * e) - L(x2 - h * e)) / (2 * h) for e in np.eye(len(x2))])
    mon.close("augmented Lagrangian", num, grad, 1e-4, 1e-3 * (1 + np.max(np.abs(grad))), d + " gradient")
    mon.nontrivial(sig(D, "lagrangian", tuple(m > 0 for m in mult)))


def w_linearize(r, mon):
    P, D = make(r, mon, kinds=("cont", "cont", "cont", "index"))
    if r.random() < 0.3:
        P.grad = lambda x: D["f"].grad(full(D, x))[D["free"]]
    for step in range(r.randint(1, 3)):
        x = point(r, D)
        if r.random() < 0.3:
            # something else was evaluated before
            P.eval_cons(point(r, D))
        if r.random() < 0.15:
            xi = np.array([max(math.ceil(D["lb"][i]), min(math.floor(D["ub"][i]), round(v))) for i, v in zip(D["free"], x)], float)
            if all(D["lb"][i] <= v <= D["ub"][i] for i, v in zip(D["free"], xi)):
                x = xi
        ints = all(float(v).is_integer() for v in x)
        if ints:
            mon.note("integer point")
            arg = r.choice([lambda: np.array(x, int), lambda: [int(v) for v in x], lambda: x.copy()])()
        else:
            arg = x.copy() if r.random() < 0.6 else list(x)
        pot = r.random() < 0.3
        xf = full(D, x)
        gv = [c["f"](xf) for c in D["cons"]]
        rows = list(range(len(gv)))
        if pot:
            if any(abs(abs(g) - 0.25) < 1e-6 for g in gv):
                raise vm.CaseSkip("potential tie")
            rows = [j for j, g in enumerate(gv) if D["cons"][j]["type"] == "=" or (g > -0.25 if D["cons"][j]["type"] == "<" else g < 0.25)]
        A, B, df, fx = P.linearize(arg, pot) if pot else P.linearize(arg)

        def dd(fun, grad, xf, exact=False):
            out = []
            for i in D["free"]:
                if D["kind"][i] == "index" and not exact:
                    h = 1 if xf[i] + 1 <= D["ub"][i] else -1
                    y = xf.copy()
                    y[i] += h
                    out.append((fun(y) - fun(xf)) / h)
                else:
                    out.append(float(np.asarray(grad(xf))[i]))
            return np.array(out)
        d = "x=%s" % list(x)
        mon.close("linearization", fx, D["f"](xf), 1e-9, 1e-9, d + " f")
        # (a gradient given by the user is used as it is)
        mon.close("linearization", df, dd(D["f"], D["f"].grad, xf, P.grad is not None), 1e-4, 1e-4, d + " df")
        ok = mon.ok("potentially active rows" if pot else "linearization", np.shape(A) == (len(rows), len(D["free"])) and len(B) == len(rows), d + " shape %s" % (np.shape(A),))
        if ok and rows:
            W = np.array([dd(D["cons"][j]["f"], D["cons"][j]["g"], xf) for j in rows])
            mon.close("linearization", A, W, 1e-4, 1e-4, d + " A")
            mon.close("linearization", B, W @ x - np.array(gv)[rows], 1e-4, 1e-3, d + " B")
            mon.close("linearization", A @ x - B, np.array(gv)[rows], 1e-9, 1e-6, d + " value of the linearization")
        mon.close("linearization point", P.var_values(), x, 1e-12, 1e-12, d + " values left")
        mon.close("linearization point", arg, x, 0, 0, d + " argument")
        # the problem is left at the linearization point, also its analysis
        if D["cons"]:
            j = r.randrange(len(D["cons"]))
            mon.close("linearization point", P.cons[j](x), gv[j], 1e-9, 1e-9, d + " constraint afterwards")
        if D["f"].fea:
            mon.close("linearization point", P.obj(x), D["f"](xf), 1e-9, 1e-9, d + " objective afterwards")
        for c in P.cons:
            c.potential = True
        mon.nontrivial(sig(D, "linearize", pot, D["f"].fea))


def w_functions(r, mon):
    """approximations of plain functions"""
    U = r.uniform
    n = r.randint(1, 5)
    f = Fun(r, n, pos=True)
    x = np.array([U(0.3, 4) for _ in range(n)])
    mon.case(dict(kind=f.k, a=list(f.a), b=list(f.b), x=list(x)))
    x0 = x.copy()
    g = NumGrad(f, x if r.random() < 0.5 else list(x))
    G = f.grad(x)
    mon.close("numerical gradient", g, G, 1e-4, 1e-4 * (1 + np.max(np.abs(G))), "gradient")
    a, b, c = Linearize(f, x, f.grad) if r.random() < 0.5 else Linearize(f, x)
    mon.close("numerical gradient", np.append(a, [b, c]), np.append(G, [f(x), G @ x]), 1e-4, 1e-4 * (1 + np.max(np.abs(G))), "Linearize")
    mon.ok("numerical gradient", np.array_equal(x, x0), "argument is unchanged")
    C = conlin_fun(x.copy(), f(x), G)
    L, Up = x - np.array([U(0.2, 0.9) * v for v in x]), x + np.array([U(0.5, 5) for _ in x])
    Ms = [mma_fun(x.copy(), f(x), G, L, Up), MMAFunction(x, f(x), G, L, Up)]
    ys = [np.array([U(0.2, 5) for _ in x]) for _ in range(3)]
    zs = [L + (Up - L) * np.array([U(0.05, 0.95) for _ in x]) for _ in range(3)]
    mon.close("approximation at the point", C(x), f(x), 1e-9, 1e-9, "conlin value")
    for y in ys:
        w = f(x) + sum(gi * (yi - xi) * (1 if gi >= 0 else xi / yi) for gi, xi, yi in zip(G, x, y))
        mon.close("convex approximation", C(y), w, 1e-9, 1e-9, "conlin %s" % y)
        lin = f(x) + G @ (y - x)
        mon.ok("convex approximation", C(y) >= lin - 1e-9 * (1 + abs(lin)), "conlin is not below the linearization at %s" % y)
    for A, pts in [(C, ys)] + [(M, zs) for M in Ms]:
        p, q = pts[0], pts[1]
        mon.ok("convex approximation", A(0.5 * (p + q)) <= 0.5 * (A(p) + A(q)) + 1e-8 * (1 + abs(A(p)) + abs(A(q))), "convex along a line")
        h = 1e-6
        num = np.array([(A(x + h * e) - A(x - h * e)) / (2 * h) for e in np.eye(n)])
        mon.close("approximation at the point", num, G, 1e-4, 1e-4 * (1 + np.max(np.abs(G))), "gradient")
    for M in Ms:
        mon.close("approximation at the point", M(x), f(x), 1e-8, 1e-8, "mma value")
        for z in zs:
            w = f(x)
            for gi, xi, zi, li, ui in zip(G, x, z, L, Up):
                w += gi * (ui - xi) ** 2 * (1 / (ui - zi) - 1 / (ui - xi)) if gi >= 0 else -gi * (xi - li) ** 2 * (1 / (zi - li) - 1 / (xi - li))
            mon.close("convex approximation", M(z), w, 1e-8, 1e-8, "mma %s" % z)
            lin = f(x) + G @ (z - x)
            mon.ok("convex approximation", M(z) >= lin - 1e-8 * (1 + abs(lin)), "mma is not below the linearization")
        # function goes to infinity towards an asymptote
    k = r.randrange(n)
    if abs(G[k]) > 1e-2:
        z = x.copy()
        z[k] = Up[k] - 1e-9 if G[k] > 0 else L[k] + 1e-9
        for M in Ms:
            mon.ok("asymptotes", M(z) > 1e3, "value %s near the asymptote" % M(z))
    else:
        mon.counts["asymptotes"] += 1
    z = zs[0]
    h = 1e-6
    num = np.array([(Ms[1](z + h * e) - Ms[1](z - h * e)) / (2 * h) for e in np.eye(n)])
    mon.close("convex approximation", Ms[1].grad(z), num, 1e-3, 1e-3 * (1 + np.max(np.abs(num))), "mma gradient")
    if n == 1:
        mon.close("approximation at the point", conlin_fun(float(x[0]), f(x), float(G[0]))(float(x[0])), f(x), 1e-9, 1e-9, "scalar conlin")
        mon.close("approximation at the point", mma_fun(float(x[0]), f(x), float(G[0]), float(L[0]), float(Up[0]))(float(x[0])), f(x), 1e-9, 1e-9, "scalar mma")
    mon.nontrivial(("functions", n, f.k, tuple(G >= 0)))


def w_approx(r, mon):
    """approximate problems"""
    P, D = make(r, mon, pos=True, fea=r.random() < 0.5, unbounded=False)
    x = np.array([r.uniform(D["lb"][i] + 1e-3, D["ub"][i] - 1e-3) for i in D["free"]])
    xf = full(D, x)
    if r.random() < 0.3:
        P.grad = lambda y: D["f"].grad(full(D, y))[D["free"]]
    for c, con in zip(D["cons"], P.cons):
        if c["kind"] == "non" and r.random() < 0.3:
            con.grad = lambda y, c=c: c["g"](full(D, y))[D["free"]]
    kind = r.choice(["conlin", "mma"])
    lb, ub = np.array(D["lb"])[D["free"]], np.array(D["ub"])[D["free"]]
    cons0 = list(P.cons)
    if kind == "conlin":
        Q = P.conlin(x.copy())
        wl, wu = lb, ub
    else:
        L, U = x - np.array([r.uniform(0.1, 3) for _ in x]), x + np.array([r.uniform(0.1, 3) for _ in x])
        mu = r.choice([0.8, 0.8, r.uniform(0.1, 0.9)])
        Q = P.mma(x.copy(), U, L, mu) if mu != 0.8 else P.mma(x.copy(), U, L)
        wl, wu = np.maximum(lb, L + mu * (x - L)), np.minimum(ub, U - mu * (U - x))
    d = "%s x=%s" % (kind, list(x))
    mon.close("approximate problem", [list(Q.xlb()), list(Q.xub())], [list(wl), list(wu)], 1e-9, 1e-9, d + " bounds")
    mon.ok("approximate problem", [c.type for c in Q.cons] == [c["type"] for c in D["cons"]] and [c.name for c in Q.cons] == [c.name for c in P.cons], d)
    mon.ok("problem unchanged", P.cons == cons0 and all(c.problem is P for c in P.cons) and all(c.problem is Q for c in Q.cons), d + " owners of constraints")
    pts = [x] + [np.array([r.uniform(a, b) for a, b in zip(wl, wu)]) for _ in range(2)]

    def approx(f0, G, y):
        w = f0
        for k in range(len(x)):
            g = G[k]
            if kind == "conlin":
                w += g * (y[k] - x[k]) * (1 if g >= 0 else x[k] / y[k])
            else:
                w += g * (U[k] - x[k]) ** 2 * (1 / (U[k] - y[k]) - 1 / (U[k] - x[k])) if g >= 0 else -g * (x[k] - L[k]) ** 2 * (1 / (y[k] - L[k]) - 1 / (x[k] - L[k]))
        return w
    for y in pts:
        first = y is x
        mon.close("approximation at the point" if first else "approximate problem", Q.obj(y), approx(D["f"](xf), D["f"].grad(xf)[D["free"]], y), 1e-3 if not first else 1e-9, 1e-3 if not first else 1e-9, d + " objective at %s" % list(y))
        for c, q in zip(D["cons"], Q.cons):
            if c["kind"] == "lin":
                mon.close("approximate problem", q(y), c["f"](full(D, y)), 1e-9, 1e-8, d + " linear constraint at %s" % list(y))
            else:
                mon.close("approximation at the point" if first else "approximate problem", q(y), approx(c["f"](xf), np.asarray(c["g"](xf))[D["free"]], y), 1e-3 if not first else 1e-9, 1e-3 if not first else 1e-8, d + " %s constraint at %s" % (c["type"], list(y)))
    # the original problem still evaluates itself
    y = pts[-1]
    mon.close("problem unchanged", P.obj(y), D["f"](full(D, y)), 1e-9, 1e-9, d)
    mon.close("problem unchanged", P.eval_cons(y), [c["f"](full(D, y)) for c in D["cons"]], 1e-9, 1e-8, d)
    mon.nontrivial(sig(D, kind, D["f"].fea))


def w_neighbourhood(r, mon):
    U = r.uniform
    P = OptimizationProblem("p")
    lists = []
    cont = {}
    for i in range(r.randint(1, 4)):
        if r.random() < 0.25:
            P.add(Variable("c%d" % i, -3, 3))
            cont[i] = U(-3, 3)
            lists.append([cont[i]])
        elif r.random() < 0.5:
            vals = list(set(round(U(0, 20), 2) for _ in range(r.randint(2, 7))))
            P.add(DiscreteVariable("d%d" % i, values=vals))
            lists.append(vals)
        else:
            lb = r.randint(-4, 4)
            ub = lb + r.randint(1, 8)
            P.add(IntegerVariable("i%d" % i, lb, ub))
            lists.append(list(range(lb, ub + 1)))
    k = r.randint(1, 4)
    x = [U(min(v), max(v)) for v in lists]
    mon.case(dict(lists=lists, x=x, k=k))
    want = []
    for v, xx in zip(lists, x):
        s = sorted(v, key=lambda a: abs(a - xx))
        if len(s) > k and abs(abs(s[k - 1] - xx) - abs(s[k] - xx)) < 1e-9:
            raise vm.CaseSkip("tie")
        want.append(s[:k])
    got = list(P.discrete_neighborhood(x, k))
    mon.ok("neighbourhood", sorted(tuple(map(float, g)) for g in got) == sorted(tuple(map(float, g)) for g in itertools.product(*want)), "got=%s want=%s" % (got[:5], want))
    mon.nontrivial(("neigh", len(lists), k))


WORKLOADS = {"penalty": (w_penalty, 6000, 80000), "barrier": (w_barrier, 4000, 50000), "lagrangian": (w_lagrangian, 6000, 80000), "linearize": (w_linearize, 6000, 80000), "functions": (w_functions, 4000, 60000),
             "approx": (w_approx, 6000, 80000), "neighbourhood": (w_neighbourhood, 1500, 10000)}

if __name__ == "__main__":
    vm.main(globals())
