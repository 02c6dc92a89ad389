"""O04: truss optimization problems (LP, MILP, sizing) describe the truss they are given and their solutions are its optimum designs."""
import os, sys, math, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vm
import numpy as np
import scipy.optimize as so
from metku.frame2d.simple_truss import SimpleTruss
from metku.frame2d.frame2d import PointLoad, XYHingedSupport, YHingedSupport
from metku.sections.steel import SHS
from metku.structures.steel.steel_member import SteelMember
from metku.frame2d.frame2d import LoadIDs
from metku.optimization.problems.truss_optimization import truss_lp, truss_milp, TrussOptimization
from metku.optimization.problems.truss_milp import TrussMILP
from metku.optimization.solvers.lp import LP
from metku.optimization.solvers.milp import MILP

PROPERTY = "O04"
RULE = ("one case is one random pin-jointed truss (fans and two-joint ground structures, statically determinate or not, loads at the free joints in one to three load cases with integer or named ids) given to the linear program, to the two "
        "mixed-integer programs (sizing with common or restricted profile lists, topology with and without groups) or to the sizing problem with area, discrete or profile variables. The optimum is compared with an independent linear program "
        "(scipy), with the enumeration of all profile assignments analysed by an own stiffness solver, and the constraints and design rules with closed forms. Non-trivial: distinct (problem, shape, load cases, constraints, outcome).")
MONITORS = ["lp optimum", "lp design", "lp infeasible", "milp optimum", "milp forces", "milp displacements", "milp infeasible", "selected profiles", "restricted profiles", "topology optimum", "vanished members", "grouped members",
            "objective", "stress constraints", "strength constraints", "buckling constraints", "displacement constraints", "fully stressed design", "scaled design", "independent problems", "grouped variables", "feasibility"]

E = 210e3
FY = 355.0
PROFS = [(40, 3), (50, 4), (60, 4), (70, 5), (80, 4), (90, 5), (100, 5), (120, 6), (150, 6), (150, 10)]
LCS = [2, 3, 5, LoadIDs.ULS, LoadIDs.SLS_Charasteristic, "wind"]


class T:
    """truss data kept apart from the metku object"""

    def __init__(self, r, nlc=None, kind=None, scale=None, maxmem=6):
        U = r.uniform
        self.kind = kind or r.choice(["fan", "fan", "ground", "ground", "tower"])
        L = r.choice([1000.0, 2000.0, 3000.0, 4000.0])
        rr = lambda v: float(round(v))
        if self.kind == "fan":
            n = r.randint(2, 4)
            ang = sorted(r.sample(range(10, 171, 20), n))
            self.X = [[0.0, 0.0]] + [[rr(L * math.cos(math.radians(a)) * U(0.8, 1.3)), rr(L * math.sin(math.radians(a)) * U(0.8, 1.3))] for a in ang]
            self.mem = [[0, k + 1] if r.random() < 0.5 else [k + 1, 0] for k in range(n)]
            self.sup = list(range(1, n + 1))
        elif self.kind == "ground":
            h = rr(L * U(0.6, 1.2))
            self.X = [[0.0, 0.0], [0.0, h], [L, rr(U(-0.2, 0.2) * h)], [L, rr(h * U(0.8, 1.1))]]
            allm = [[0, 2], [1, 3], [2, 3], [0, 3], [1, 2]]
            self.mem = list(allm)
            if r.random() < 0.4:
                self.mem.pop(r.choice([2, 3, 4]))
            self.sup = [0, 1]
        else:
            self.X = [[0.0, 0.0], [L, 0.0], [rr(L * U(0.3, 0.7)), rr(L * U(0.5, 1.0))], [rr(L * U(0.3, 0.7)), rr(L * U(1.3, 1.8))]]
            self.mem = [[0, 2], [1, 2], [2, 3], [0, 3], [1, 3]]
            if r.random() < 0.4:
                self.mem.pop(r.choice([0, 1, 3, 4]))
            self.sup = [0, 1]
        r.shuffle(self.mem)
        self.mem = self.mem[:maxmem]
        self.nm = len(self.mem)
        self.free = [j for j in range(len(self.X)) if j not in self.sup]
        self.nlc = nlc or r.choice([1, 1, 2, 3])
        self.lcs = r.sample(LCS, self.nlc)
        self.P = []
        for k in range(self.nlc):
            loads = {}
            for j in r.sample(self.free, r.randint(1, len(self.free))):
                a = U(0, 2 * math.pi)
                F = (scale or 10 ** U(4.3, 5.5))
                loads[j] = [round(F * math.cos(a), 1), round(F * math.sin(a), 1)]
            self.P.append(loads)
        self.L = [math.dist(self.X[a], self.X[b]) for a, b in self.mem]
        self.dof = {j: (2 * i, 2 * i + 1) for i, j in enumerate(self.free)}
        self.nd = 2 * len(self.free)
        # columns: elongation per unit displacement
        self.B = np.zeros((self.nd, self.nm))
        for i, (a, b) in enumerate(self.mem):
            d = (np.array(self.X[b]) - np.array(self.X[a])) / self.L[i]
            if a in self.dof:
                self.B[list(self.dof[a]), i] -= d
            if b in self.dof:
                self.B[list(self.dof[b]), i] += d
        self.p = np.zeros((self.nlc, self.nd))
        for k, ld in enumerate(self.P):
            for j, f in ld.items():
                self.p[k, list(self.dof[j])] += f
        self.start = [r.choice(PROFS) for _ in range(self.nm)]

    def key(self):
        return (self.kind, self.nm, self.nlc)

    def data(self):
        return dict(X=self.X, mem=self.mem, sup=self.sup, P=self.P, lcs=[str(l) for l in self.lcs])

    def build(self, calc=True):
        t = SimpleTruss(self.X, self.mem, ["SHS %dx%dx%.1f" % (h, h, s) for h, s in self.start])
        for j in self.sup:
            t.add(XYHingedSupport(self.X[j]))
        for k, ld in enumerate(self.P):
            for j, f in ld.items():
                t.add(PointLoad(self.X[j], [f[0], f[1], 0], load_id=self.lcs[k]))
        t.generate()
        if calc:
            t.calculate("all", support_method="REM")
        else:
            t.f.nodal_dofs()
        return t

    def solve(self, A, k=None):
        """forces (tension positive) and displacements of the load cases; None for a mechanism"""
        K = (self.B * (E * np.asarray(A) / np.array(self.L))) @ self.B.T
        if np.linalg.cond(K) > 1e9:
            return None
        u = np.linalg.solve(K, self.p.T).T
        N = (u @ self.B) * (E * np.asarray(A) / np.array(self.L))
        return N, u

    def stable(self):
        s = self.solve(np.ones(self.nm) * 1000.0)
        return s is not None

    def node(self, t, j):
        for nd in t.f.nodes:
            if math.dist(list(nd.coord)[:2], self.X[j]) < 1:
                return nd
        raise RuntimeError("node")


def make(r, **kw):
    for _ in range(20):
        t = T(r, **kw)
        if t.stable():
            return t
    raise vm.CaseSkip("no stable truss")


# ---------------------------------------------------------------- linear program
def w_lp(r, mon):
    U = r.uniform
    t = make(r)
    Alb = r.choice([0, 0, round(U(50, 500), 1), "list"])
    Aub = r.choice([1e9, 1e5, round(U(500, 4000), 1), "list"])
    s = r.choice([None, round(U(100, 400), 1), "list"])
    lo = [round(U(0, 300), 1) for _ in range(t.nm)] if Alb == "list" else Alb
    up = [round(U(600, 5000), 1) for _ in range(t.nm)] if Aub == "list" else Aub
    sl = [round(U(80, 355), 1) for _ in range(t.nm)] if s == "list" else s
    su = [round(U(80, 355), 1) for _ in range(t.nm)] if s == "list" else s
    mon.case(dict(t.data(), Alb=lo, Aub=up, slb=sl, sub=su))
    tr = t.build()
    kw = {}
    if s is not None:
        kw = dict(slb=sl, sub=su)
    P = truss_lp(tr, lo, up, **kw)
    S = LP()
    f, x = S.solve(P)
    v = lambda q, d=None: np.array(q, float) if isinstance(q, list) else np.ones(t.nm) * (d if q is None else q)
    lo, up, sl, su = v(lo), v(up), v(sl, FY), v(su, FY)
    n = t.nm
    nv = n + n * t.nlc
    c = np.zeros(nv)
    c[:n] = t.L
    Aeq, beq, Aub_, bub = [], [], [], []
    for k in range(t.nlc):
        for d in range(t.nd):
            row = np.zeros(nv)
            row[n + k * n: n + (k + 1) * n] = t.B[d]
            Aeq.append(row)
            beq.append(t.p[k, d])
        for i in range(n):
            row = np.zeros(nv)
            row[i], row[n + k * n + i] = -su[i], 1
            Aub_.append(row)
            bub.append(0)
            row = np.zeros(nv)
            row[i], row[n + k * n + i] = -sl[i], -1
            Aub_.append(row)
            bub.append(0)
    ref = so.linprog(c, Aub_, bub, Aeq, beq, [(a, b) for a, b in zip(lo, up)] + [(None, None)] * (n * t.nlc), method="highs")
    if ref.status == 2:
        # a hair of slack must not turn the answer
        ref2 = so.linprog(c, Aub_, bub, Aeq, beq, [(a, b * 1.001) for a, b in zip(lo, up)] + [(None, None)] * (n * t.nlc), method="highs")
        if ref2.status == 2:
            mon.ok("lp infeasible", not S.feasible, "solver returned %s for an infeasible problem" % (x,))
            mon.nontrivial(("lp infeasible",) + t.key())
        return
    mon.ok("lp optimum", S.feasible, "no solution although the optimum is %g" % ref.fun)
    mon.close("lp optimum", f, ref.fun, 3e-4, 1e-3, "material volume")
    A, N = x[:n], x[n:].reshape(t.nlc, n)
    for k in range(t.nlc):
        mon.close("lp design", t.B @ N[k], t.p[k], 3e-4, 3e-4 * np.max(np.abs(t.p)), "equilibrium of load case %s" % (t.lcs[k],))
        mon.ok("lp design", np.all(N[k] <= su * A + 1e-4 * np.max(np.abs(t.p)) + 1e-3) and np.all(-N[k] <= sl * A + 1e-4 * np.max(np.abs(t.p)) + 1e-3), "stress bound A=%s N=%s" % (A, N[k]))
    mon.ok("lp design", np.all(A >= lo - 1e-4) and np.all(A <= up + 1e-4), "area bounds %s" % A)
    # the design is put into the structure: areas of the members
    P.substitute_variables(x)
    mon.close("lp design", [tr.members[i].A for i in range(n)], A, 1e-9, 1e-6, "areas of the members")
    mon.nontrivial(("lp", s, Alb == "list", Aub == "list") + t.key())


# ---------------------------------------------------------------- mixed-integer programs
def tables(t, profs):
    A = np.array([SHS(*p).A for p in profs])
    NR = np.array([math.floor(SHS(*p).NRd) for p in profs], float)
    NB = np.array([[math.floor(SteelMember(SHS(*p), L).NbRd[0]) for p in profs] for L in t.L], float)
    w = np.array([SHS(*p).weight() for p in profs])
    return A, NR, NB, w


def enum_sizing(t, tab, lists, ulb, uub, fac):
    A, NR, NB, w = tab
    best, arg, cnt = math.inf, None, 0
    for pick in itertools.product(*lists):
        W = sum(w[j] * L for j, L in zip(pick, t.L))
        if W >= best:
            continue
        Ai = A[list(pick)]
        N, u = t.solve(Ai)
        if np.any(N > fac * NR[list(pick)]) or np.any(-N > fac * np.minimum(NR[list(pick)], NB[range(t.nm), list(pick)])):
            continue
        if np.any(u > fac * uub) or np.any(u < fac * ulb):
            continue
        best, arg = W, pick
    return best, arg


def w_milp(r, mon):
    U = r.uniform
    which = r.choice(["function", "class", "class"])
    t = make(r, maxmem=5)
    nprof = r.randint(2, 4 if t.nm <= 4 else 3)
    profs = r.sample(PROFS, nprof)
    uub = round(U(3, 40), 1)
    ulb = -round(U(3, 40), 1)
    lists = [list(range(nprof)) for _ in range(t.nm)]
    mp = gr = None
    if which == "class" and r.random() < 0.5:
        mp = []
        for i in range(t.nm):
            if r.random() < 0.6:
                l = sorted(r.sample(range(nprof), r.randint(1, nprof)))
                mp.append(dict(member=i, profiles=l))
                lists[i] = l
    elif which == "class" and r.random() < 0.4:
        g = r.sample(range(t.nm), 2)
        l = sorted(r.sample(range(nprof), r.randint(1, nprof)))
        gr = [dict(members=g, profiles=l)]
        for i in g:
            lists[i] = l
    mon.case(dict(t.data(), which=which, profs=profs, ulb=ulb, uub=uub, member_profiles=mp, groups=gr))
    tr = t.build(r.random() < 0.5)
    PR = [SHS(*p) for p in profs]
    sc = dict(N=1e-3, u=1e-1)
    if which == "function":
        P = truss_milp(tr, PR, ulb, uub)
    else:
        keep = dict(sc)
        M = TrussMILP("m", tr, PR, ulb=ulb, uub=uub, scaling=sc, groups=gr, member_profiles=mp)
        mon.ok("independent problems", sc == keep, "scaling of the caller changed %s" % sc)
        P = M.create_milp() or M.milp
    S = MILP()
    f, x = S.solve(P)
    tab = tables(t, profs)
    lo, a1 = enum_sizing(t, tab, lists, ulb, uub, 1.02)
    hi, a2 = enum_sizing(t, tab, lists, ulb, uub, 0.98)
    if math.isinf(lo):
        mon.ok("milp infeasible", not S.feasible, "%s returns %s although no assignment is feasible" % (which, x))
        mon.nontrivial((which, "infeasible") + t.key())
        return
    if not S.feasible:
        mon.ok("milp optimum", math.isinf(hi), "%s finds no design although %s is feasible (%g kg)" % (which, a2, hi))
        return
    mon.ok("milp optimum", lo * (1 - 2e-4) <= f <= hi * (1 + 2e-4), "%s gives %g, the lightest feasible design weighs %g (%s), with margin %g (%s)" % (which, f, lo, a1, hi, a2))
    if lo == hi:
        mon.note("optimum exact")
    ny = [len(l) for l in lists]
    st = np.concatenate([[0], np.cumsum(ny)]).astype(int)
    pick = []
    for i in range(t.nm):
        y = x[st[i]:st[i + 1]]
        one = [j for j, q in enumerate(y) if q > 0.5]
        mon.ok("selected profiles", len(one) == 1 and all(abs(q - round(q)) < 1e-4 for q in y), "member %d: %s" % (i, y))
        pick.append(lists[i][one[0]])
    Y = st[-1]
    if mp or gr:
        mon.note("restricted")
    mon.ok("restricted profiles", all(p in l for p, l in zip(pick, lists)), "profiles outside the list")
    mon.close("selected profiles", f, sum(tab[3][j] * L for j, L in zip(pick, t.L)), 2e-4, 1e-9, "weight of the selected profiles")
    N, u = t.solve(tab[0][pick])
    B_ord = []
    for nd_ in tr.f.nodes:
        for d in range(2):
            g = int(nd_.dofs[d])
            if g not in [int(q) for q in tr.f.supp_dofs]:
                j = [q for q in range(len(t.X)) if math.dist(list(nd_.coord)[:2], t.X[q]) < 1][0]
                if j in t.dof:
                    B_ord.append((g, t.dof[j][d]))
    nfree = tr.f.nfree_dofs
    fmax = np.max(np.abs(t.p))
    free = sorted(g for g in range(tr.f.dofs) if g not in [int(q) for q in tr.f.supp_dofs])
    for k in range(t.nlc):
        if which == "function":
            a, b = Y + k * Y, Y + t.nlc * Y + k * nfree
        else:
            a, b = Y + k * (Y + nfree), Y + k * (Y + nfree) + Y
        Nk = [sum(x[a + st[i]:a + st[i + 1]]) / 1e-3 for i in range(t.nm)]
        mon.close("milp forces", Nk, N[k], 2e-2, 2e-2 * fmax, "%s load case %s" % (which, t.lcs[k]))
        uk = x[b:b + nfree] / 1e-1
        got = [uk[free.index(g)] for g, d in B_ord]
        want = [u[k][d] for g, d in B_ord]
        mon.close("milp displacements", got, want, 3e-2, 3e-2 * max(1.0, np.max(np.abs(u))), "%s load case %s" % (which, t.lcs[k]))
    if which == "function":
        P.substitute_variables(x)
    else:
        M.substitute_design(x)
    got = [(tr.members[i].cross_section.H, tr.members[i].cross_section.T) for i in range(t.nm)]
    mon.ok("selected profiles", got == [tuple(map(float, profs[j])) for j in pick], "members carry %s, selected %s" % (got, [profs[j] for j in pick]))
    mon.nontrivial((which, bool(mp), bool(gr), len(set(pick)), nprof) + t.key())


def w_topology(r, mon):
    U = r.uniform
    t = make(r, maxmem=5, nlc=r.choice([1, 1, 2]))
    nprof = 2
    profs = r.sample(PROFS, nprof)
    uub = round(U(4, 40), 1)
    ulb = -round(U(4, 40), 1)
    gr = None
    if r.random() < 0.5:
        g = r.sample(range(t.nm), 2)
        gr = [dict(members=g, profiles=list(range(nprof)))]
    mon.case(dict(t.data(), topology=True, profs=profs, ulb=ulb, uub=uub, groups=gr))
    tr = t.build(r.random() < 0.5)
    M = TrussMILP("m", tr, [SHS(*p) for p in profs], ulb=ulb, uub=uub, scaling=dict(N=1e-3, u=1e-1), groups=gr)
    M.create_milp("topology")
    S = MILP()
    f, x = S.solve(M.milp)
    A, NR, NB, w = tables(t, profs)

    def best(fac, facu):
        cands = []
        for pick in itertools.product(range(-1, nprof), repeat=t.nm):
            ex = [i for i in range(t.nm) if pick[i] >= 0]
            if gr:
                if len({pick[i] for i in gr[0]["members"] if pick[i] >= 0}) > 1:
                    continue
            deg = {j: sum(1 for i in ex if j in t.mem[i]) for j in range(len(t.X))}
            if any(0 < deg[j] < 2 for j in t.free):
                continue
            if sum(1 for j in t.sup if deg[j]) < 2:
                continue
            if sum((0 if j in t.sup else 2) for j in deg if deg[j]) > len(ex):
                continue
            cands.append((sum(w[pick[i]] * t.L[i] for i in ex), pick, ex))
        cands.sort(key=lambda q: q[0])
        for W, pick, ex in cands:
            ok = True
            for k in range(t.nlc):
                if not ex:
                    ok = False
                    break
                j = [pick[i] for i in ex]
                Kd = E * A[j] / np.array([t.L[i] for i in ex])
                Bx = t.B[:, ex]
                rows = Kd[:, None] * Bx.T  # N = rows u
                sc_ = 1e-3
                cap = fac * np.minimum(NR[j], NB[ex, j]) * sc_
                capt = fac * NR[j] * sc_
                res = so.linprog(np.zeros(t.nd), np.vstack([rows, -rows]) * sc_, np.concatenate([capt, cap]), Bx @ rows * sc_, t.p[k] * sc_, [(facu * ulb, facu * uub)] * t.nd, method="highs")
                if res.status != 0:
                    ok = False
                    break
            if ok:
                return W, pick
        return math.inf, None

    lo, a1 = best(1.02, 1.02)
    hi, a2 = best(0.98, 0.98)
    if math.isinf(lo):
        mon.ok("milp infeasible", not S.feasible, "topology: %s although no truss is feasible" % (x,))
        mon.nontrivial(("topology infeasible",) + t.key())
        return
    if not S.feasible:
        mon.ok("topology optimum", math.isinf(hi), "no design although %s is feasible (%g kg)" % (a2, hi))
        return
    mon.ok("topology optimum", lo * (1 - 2e-4) <= f <= hi * (1 + 2e-4), "weight %g, lightest %g (%s), with margin %g (%s)" % (f, lo, a1, hi, a2))
    y = np.array(x[:t.nm * nprof]).reshape(t.nm, nprof)
    pick = [int(np.argmax(q)) if max(q) > 0.5 else -1 for q in y]
    M.substitute_design(x)
    mon.ok("vanished members", [bool(tr.members[i].active) for i in range(t.nm)] == [p >= 0 for p in pick], "active %s selected %s" % ([tr.members[i].active for i in range(t.nm)], pick))
    if gr:
        mon.ok("grouped members", len({pick[i] for i in gr[0]["members"] if pick[i] >= 0}) <= 1, "profiles %s of group %s" % (pick, gr))
    mon.nontrivial(("topology", bool(gr), tuple(sorted(pick))) + t.key())


# ---------------------------------------------------------------- sizing problem
def euler(L, p):
    return math.pi ** 2 * E * SHS(*p).I[0] / L ** 2


def w_sizing(r, mon):
    U = r.uniform
    t = make(r)
    cons = r.choice([None, dict(stress=True), dict(stress=True, strength=True), dict(stress=True, buckling="EN 1993"), dict(strength=True, buckling="euler"), dict(buckling="euler")])
    mode = r.choice(["area", "area", "grouped area", "discrete area", "profile"])
    mon.case(dict(t.data(), cons=cons, mode=mode, start=t.start))
    tr = t.build()
    other = T(r, kind="fan")
    P0 = TrussOptimization(structure=other.build(), constraints=dict(stress=True))
    P0.create_variables(lb=100, ub=1e4)
    P = TrussOptimization(structure=tr, constraints=cons)
    n = t.nm
    groups = [[i] for i in range(n)]
    names = None
    if mode == "area":
        lb, ub = round(U(5, 200), 1), round(U(3000, 20000), 1)
        P.create_variables(lb=lb, ub=ub)
    else:
        idx = list(range(n))
        r.shuffle(idx)
        cut = r.randint(1, n)
        groups = [g for g in (idx[:cut], idx[cut:]) if g]
        lb, ub = round(U(5, 200), 1), round(U(3000, 20000), 1)
        vg = []
        for k, g in enumerate(groups):
            d = dict(name="g%d" % k, objects=[tr.members[i] for i in g])
            if mode == "grouped area":
                d.update(value=1000.0, property="A", var_type="continuous", lb=lb, ub=ub)
            elif mode == "discrete area":
                vals = sorted(round(U(300, 5000), 1) for _ in range(4))
                d.update(value=vals[0], values=vals, property="A", var_type="discrete")
            else:
                d.update(value=0, values=["SHS %dx%dx%.1f" % (h, h, s) for h, s in PROFS], property="profile", var_type="index")
            vg.append(d)
        P.var_groups = vg
        P.create_variables()
        mon.ok("grouped variables", len(P.vars) == len(groups), "%d variables for %d groups" % (len(P.vars), len(groups)))
    mon.ok("independent problems", len(P0.vars) == other.nm and len(P.vars) == len(groups), "variables %d, %d" % (len(P0.vars), len(P.vars)))
    prof = list(t.start)
    for rep in range(r.randint(1, 3)):
        if mode == "profile":
            x = [r.randrange(len(PROFS)) for _ in groups]
            for g, v in zip(groups, x):
                for i in g:
                    prof[i] = PROFS[v]
            A = [SHS(*p).A for p in prof]
        else:
            x = [round(U(300, 3000), 1) if mode != "discrete area" else r.choice(var.values) for var in P.vars]
            A = [0.0] * n
            for g, v in zip(groups, x):
                for i in g:
                    A[i] = v
        N, u = t.solve(A)
        W = sum(a * L * 7850e-9 for a, L in zip(A, t.L))
        mon.close("objective", P.obj(x), W / 10.0, 1e-6, 1e-9, "weight, %s" % mode)
        lc = t.lcs.index(tr.load_ids[0])
        ncon = 0
        worst = -math.inf
        for con in P.cons:
            kind, _, mid = con.name.rpartition(": ")
            i = int(mid)
            g = con(x)
            NR = FY * A[i]
            if kind == "tension":
                want = N[lc][i] / NR - 1
            elif kind == "compression":
                want = -N[lc][i] / NR - 1
            elif kind.startswith("buckling (euler"):
                want = -N[lc][i] / euler(t.L[i], prof[i]) - 1
            elif kind.startswith("buckling (EN"):
                s = SHS(*prof[i])
                s.A = A[i]
                want = -N[lc][i] / SteelMember(s, t.L[i]).NbRd[0] - 1
            name = "buckling constraints" if "buckling" in kind else ("stress constraints" if (cons or dict(stress=True)).get("stress") else "strength constraints")
            if (cons or {}).get("strength") and "buckling" not in kind:
                name = "strength constraints"
            mon.close(name, g, want, 1e-5, 1e-6 * max(1.0, np.max(np.abs(N)) / NR), "%s of member %d, %s" % (kind, i, mode))
            worst = max(worst, want)
            ncon += 1
        c = cons or dict(stress=True)
        mon.ok("stress constraints", ncon == n * (2 * bool(c.get("stress")) + 2 * bool(c.get("strength")) + bool(c.get("buckling"))), "%d constraints for %s" % (ncon, c))
        if abs(worst) > 1e-3:
            mon.ok("feasibility", bool(P.feasible(x)) == (worst < 0), "feasible() %s although the worst constraint is %g" % (P.feasible(x), worst))
    # displacement constraints
    j = r.choice(t.free)
    nd = t.node(tr, j)
    dof = r.choice("xy")
    m0 = len(P.displacement_cons)
    ulb, uub = r.choice([(-5.0, 5.0), (None, 8.0), (-3.0, None), (0.0, 0.0), (-9.0, -1.0), (1.0, 9.0), (-0.5, 2.0)])
    klc = r.choice([None] + list(range(t.nlc)))
    P.displacement_constraint(nd, dof, ulb, uub, load_case=None if klc is None else t.lcs[klc])
    lcu = lc if klc is None else klc
    uu = u[lcu][t.dof[j]["xy".index(dof)]]
    new = P.displacement_cons[m0:]
    mon.ok("displacement constraints", len(new) == (ulb is not None) + (uub is not None), "%d constraints for %s" % (len(new), (ulb, uub)))
    for con in new:
        g = con(x)
        lower = ">=" in con.name
        b = ulb if lower else uub
        if lower:
            want = -uu if b == 0 else (uu / b - 1 if b < 0 else 1 - uu / b)
        else:
            want = uu if b == 0 else (uu / b - 1 if b > 0 else 1 - uu / b)
        mon.close("displacement constraints", g, want, 1e-5, 1e-6 + 1e-6 * abs(uu), "%s %s u=%g" % (con.name, dof, uu))
    mon.nontrivial(("sizing", mode, str(cons), klc is None) + t.key())


def w_fsd(r, mon):
    U = r.uniform
    t = make(r)
    lb, ub = round(U(5, 300), 1), round(U(1500, 20000), 1)
    grouped = r.random() < 0.4
    mon.case(dict(t.data(), lb=lb, ub=ub, grouped=grouped, start=t.start))
    tr = t.build()
    P = TrussOptimization(structure=tr, constraints=dict(stress=True))
    groups = [[i] for i in range(t.nm)]
    if grouped:
        idx = list(range(t.nm))
        r.shuffle(idx)
        cut = r.randint(1, t.nm)
        groups = [g for g in (idx[:cut], idx[cut:]) if g]
        P.var_groups = [dict(name="g%d" % k, objects=[tr.members[i] for i in g], value=1000.0, property="A", var_type="continuous", lb=lb, ub=ub) for k, g in enumerate(groups)]
        P.create_variables()
    else:
        P.create_variables(lb=lb, ub=ub)
    x0 = [round(U(300, 2000), 1) for _ in groups]
    x0 = [min(max(v, lb), ub) for v in x0]
    P.substitute_variables(x0)
    P.fsd()
    got = [v.value for v in P.vars]
    ex = lambda q: [v for i in range(t.nm) for v, g in zip(q, groups) if i in g]
    x = list(x0)
    for _ in range(10):
        N, u = t.solve(ex(x))
        x = [min(max(lb, max(abs(N[k][i]) / FY for i in g for k in range(t.nlc))), ub) for g in groups]
    mon.close("fully stressed design", got, x, 1e-4, 1e-3, "areas after the iteration")
    mon.close("fully stressed design", [tr.members[i].A for i in range(t.nm)], ex(got), 1e-9, 1e-6, "areas of the members")
    det = t.nm == t.nd
    if det:
        # statically determinate: every member is fully stressed or at its bound
        N, u = t.solve(ex(got))
        for g, v in zip(groups, got):
            s = max(abs(N[k][i]) / FY for i in g for k in range(t.nlc))
            mon.close("fully stressed design", v, min(max(s, lb), ub), 1e-6, 1e-6, "determinate")
    mon.nontrivial(("fsd", grouped, det, sum(v <= lb for v in got), sum(v >= ub for v in got)) + t.key())


def w_scale(r, mon):
    U = r.uniform
    t = make(r, nlc=r.choice([1, 1, 2]))
    lb, ub = round(U(1, 100), 1), round(10 ** U(3.5, 5), 1)
    disp = r.random() < 0.5
    mon.case(dict(t.data(), lb=lb, ub=ub, disp=disp))
    tr = t.build()
    P = TrussOptimization(structure=tr, constraints=dict(stress=True))
    P.create_variables(lb=lb, ub=ub)
    lc = t.lcs.index(tr.load_ids[0])
    lim = []
    if disp:
        j = r.choice(t.free)
        dof = r.choice([0, 1])
        lo, up = -round(U(1, 10), 1), round(U(1, 10), 1)
        P.displacement_constraint(t.node(tr, j), "xy"[dof], lo, up)
        lim.append((t.dof[j][dof], lo, up))
    x = np.array([round(min(max(U(300, 3000), lb), ub), 1) for _ in range(t.nm)])
    N, u = t.solve(x)
    mu = max(np.max(np.abs(N[lc]) / (FY * x)), max([max(u[lc][d] / b if b else 0 for b in (lo, up)) for d, lo, up in lim] or [0]), np.max(lb / x))
    muU = np.min(ub / x)
    y = P.scale_design(list(x) if r.random() < 0.5 else x)
    if abs(mu / muU - 1) < 1e-4:
        return
    if mu <= muU:
        mon.close("scaled design", y, mu * x, 1e-5, 1e-6, "scaled to the most critical constraint (%g)" % mu)
        N2, u2 = t.solve(y)
        mon.ok("scaled design", np.all(np.abs(N2[lc]) <= FY * y * (1 + 1e-5)) and np.all(y <= ub * (1 + 1e-6)) and np.all(y >= lb * (1 - 1e-6)), "scaled design breaks a constraint")
    else:
        mon.close("scaled design", y, x, 1e-9, 1e-9, "design that cannot be scaled is returned")
    mon.nontrivial(("scale", disp, bool(mu <= muU), mu > 1) + t.key())


WORKLOADS = {"lp": (w_lp, 400, 9000), "milp": (w_milp, 260, 9000), "topology": (w_topology, 90, 4000), "sizing": (w_sizing, 250, 6000), "fsd": (w_fsd, 120, 4000), "scale": (w_scale, 250, 6000)}

if __name__ == "__main__":
    vm.main(globals())
