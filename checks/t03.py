"""T03: simple (pin-jointed) trusses of raami and their statics matrix."""
import os, sys, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vm
sys.path.insert(0, vm.VERIF)
import numpy as np
import metku.eurocodes.en1993
import metku.raami.raami_simple_truss as ST
from metku.raami.frame_supports import XYHingedSupport, YHingedSupport, XHingedSupport
from metku.raami.frame_loads import PointLoad
from metku.sections.steel.RHS import RHS, SHS
from metku.sections.steel.CHS import CHS
from metku.sections.steel.ISection import IPE, HEA
from metku.sections.cross_sections import CrossSection
from metku.structures.steel.steel_member import SteelMember
import metku.framefem.framefem as FF

PROPERTY = "T03"
RULE = ("random pin-jointed trusses (node by node, braced grids, fans, with redundant members and supports) of generic sections or steel tubes and I profiles, in 1-3 load cases, "
        "re-analysed after changes of sections, nodes, loads and models; and the three, ten and fifteen bar trusses of the library with random dimensions, loads, load cases and profiles. "
        "Compared with an independent pin-jointed solver. Non-trivial: distinct (family, size, redundancy, supports, history).")
MONITORS = ["displacements", "axial forces", "no bending", "statics matrix", "equilibrium", "compatibility", "weight", "utilization", "examples"]


def prof(r, kind):
    if kind == "generic":
        return CrossSection(material=SHS(50, 5).material, A=10**r.uniform(2, 4))
    return r.choice([lambda: SHS(*r.choice([(50, 5), (100, 6), (120, 8)])), lambda: RHS(*r.choice([(100, 60, 5), (60, 100, 5), (150, 100, 8)])), lambda: CHS(*r.choice([(60.3, 4), (114.3, 6.3)])),
                     lambda: IPE(r.choice([120, 200])), lambda: HEA(r.choice([140, 200]))])()


def pinned(X, mems, EA, supp, loads):
    """independent solver; returns displacements (n x 2), forces"""
    n, m = len(X), len(mems)
    B = np.zeros((2*n, m))
    for k, (a, b) in enumerate(mems):
        d = np.array(X[b])-np.array(X[a])
        L = math.hypot(*d)
        for i in range(2):
            B[2*a+i, k] = -d[i]/L
            B[2*b+i, k] = d[i]/L
    L = np.array([math.dist(X[a], X[b]) for a, b in mems])
    free = [d for d in range(2*n) if d not in supp]
    Bf = B[free]
    # flexibility form of the same problem: N = EA/L B^T u
    sc = np.sqrt(np.array(EA)/L)
    H = Bf*sc
    if np.linalg.matrix_rank(Bf, 1e-6) < len(free) or np.linalg.cond(H) > 1e3:
        raise vm.CaseSkip("mechanism")
    u = np.zeros(2*n)
    u[free] = np.linalg.solve(H @ H.T, np.array(loads)[free])
    N = sc**2*(B.T @ u)
    return u.reshape(-1, 2), N, B, L, free


def topology(r):
    fam = r.choice(["grow", "grow", "grid", "fan"])
    U = r.uniform
    if fam == "grow":
        s = U(500, 4000)
        X = [[0.0, 0.0], [s, U(-0.2, 0.2)*s]]
        mems = [[0, 1]]
        for _ in range(r.randint(1, 8)):
            a, b = r.choice(mems)
            A, B = np.array(X[a]), np.array(X[b])
            d = B-A
            p = A+U(0.1, 0.9)*d+r.choice([-1, 1])*U(0.4, 1.2)*np.array([-d[1], d[0]])
            if min(math.dist(p, q) for q in X) < 0.2*np.linalg.norm(d):
                continue
            X.append([float(v) for v in p])
            mems += [[a, len(X)-1], [len(X)-1, b]]
        supp = [(0, "pin"), (1, r.choice(["roll", "pin"]))]
    elif fam == "grid":
        n = r.randint(1, 5)
        h = U(500, 2500)
        x = [0.0]
        for _ in range(n):
            x.append(x[-1]+U(0.6, 1.6)*h)
        X = [[v, 0.0] for v in x]+[[v, h+U(-0.2, 0.2)*h] for v in x]
        mems = []
        for i in range(n):
            mems += [[i, i+1], [n+1+i, n+2+i], [i+1, n+2+i]]
            d = r.choice(["a", "b", "ab"])
            mems += [[i, n+2+i]] if "a" in d else []
            mems += [[n+1+i, i+1]] if "b" in d else []
        supp = [(0, "pin"), (n+1, r.choice(["pin", "rollx"]))]
        if r.random() < 0.5:
            mems.append([0, n+1])
    else:
        k = r.randint(2, 6)
        X = [[0.0, 0.0]]+[[U(-4000, 4000), U(800, 4000)] for _ in range(k)]
        mems = [[0, i] for i in range(1, k+1)]
        supp = [(i, "pin") for i in range(1, k+1)]
    # relabelling
    perm = list(range(len(X)))
    r.shuffle(perm)
    X = [X[i] for i in perm]
    inv = {p: i for i, p in enumerate(perm)}
    mems = [[inv[a], inv[b]] if r.random() < 0.7 else [inv[b], inv[a]] for a, b in mems]
    r.shuffle(mems)
    supp = [(inv[i], k) for i, k in supp]
    if len(X) > 4 and r.random() < 0.4:
        a, b = r.sample(range(len(X)), 2)
        if [a, b] not in mems and [b, a] not in mems:
            mems.append([a, b])
    return fam, X, mems, supp


CLS = {"pin": (XYHingedSupport, (0, 1)), "roll": (YHingedSupport, (1,)), "rollx": (XHingedSupport, (0,))}


def compare(mon, t, X, mems, EA, supp, cases, lids, steel, tag="", designed=False):
    sd = sorted({2*i+d for i, k in supp for d in CLS[k][1]})
    out = {}
    for lid in lids:
        u, N, B, L, free = pinned(X, mems, EA, sd, cases[lid])
        out[lid] = (u, N)
        sN = max(np.max(np.abs(N)), 1.0)
        su = max(np.max(np.abs(u)), 1e-9)
        got = np.array([n.fem_node.u[lid][:2] for n in t.nodes])
        mon.close(tag+"displacements", got, u, 0, 1e-4*su, "case %s" % lid)
        ms = list(t.members.values())
        for k, m in enumerate(ms):
            f = m.nodal_forces[lid]
            mon.close(tag+"axial forces", f["N"], [N[k]]*2, 0, 3e-5*sN, "member %d case %s" % (k, lid))
            mon.close(tag+"axial forces", m.NEd[lid], N[k], 0, 3e-5*sN, "NEd of member %d case %s" % (k, lid))
            mon.ok(tag+"no bending", not np.any(np.abs(f["Vz"]+f["My"]) > 1e-9*sN), "%s" % f)
        # the statics matrix of the model
        S = t.fem.statics_matrix()
        got = np.array([m.NEd[lid] for m in ms])
        ids = [d for i in range(len(X)) for d in t.nodes[i].fem_node.dofs[:2]]
        red = [d for d in range(t.fem.dofs) if d not in set(t.fem.supp_dofs)]
        p = np.zeros(t.fem.dofs)
        for q, d in enumerate(ids):
            if d >= 0:
                p[d] = cases[lid][q]
        mon.ok("statics matrix", S.shape == (len(free), len(ms)), "shape %s, %d free, %d members" % (S.shape, len(free), len(ms)))
        if S.shape == (len(free), len(ms)):
            mon.close(tag+"equilibrium", S @ got, p[red], 0, 3e-5*sN*math.sqrt(len(ms)))
            uf = np.zeros(t.fem.dofs)
            for q, d in enumerate(ids):
                uf[d] = u.ravel()[q]
            mon.close(tag+"compatibility", S.T @ uf[red], N*L/np.array(EA), 0, 1e-4*su)
            want = np.zeros((t.fem.dofs, len(ms)))
            for q, d in enumerate(ids):
                want[d] = B[q]
            mon.close(tag+"statics matrix", S, want[red], 0, 1e-5)
        if steel:
            for k, m in enumerate(ms):
                if not designed:
                    m.design(lid)
                o = SteelMember(m.cross_section, float(L[k]), Lcr=[1.0, 1.0], mtype="bar")
                for x in (0.0, 1.0):
                    o.add_section(ned=N[k], loc=x)
                w = o.design()
                mon.close(tag+"utilization", m.utilization[lid], w, 1e-4, 1e-6, "member %d case %s" % (k, lid))
                A, fy = float(m.cross_section.A), float(m.cross_section.fy)
                mon.ok(tag+"utilization", m.utilization[lid] >= abs(N[k])/(A*fy)*(1-1e-4)-1e-6 and (N[k] < 0 or m.utilization[lid] <= abs(N[k])/(A*fy)*(1+1e-4)+1e-6), "N=%s, ratio %s" % (N[k], m.utilization[lid]))
    if steel:
        W = sum(float(m.cross_section.A)*7850e-9*math.dist(X[a], X[b]) for m, (a, b) in zip(t.members.values(), mems))
        mon.close(tag+"weight", t.weight(), W, 1e-9, 0)
    return out


def w_truss(r, mon):
    fam, X, mems, supp = topology(r)
    kind = r.choice(["generic", "steel", "general"])
    profs = [prof(r, kind) for _ in mems]
    cases = {}
    loads = []
    for lid in r.sample([0, 1, 2, 5], r.choice([1, 1, 2, 3])):
        for _ in range(r.randint(1, 4)):
            i = r.randrange(len(X))
            v = [r.choice([0.0, r.uniform(-1e5, 1e5)]), r.uniform(-1e5, 1e5), 0.0]
            loads.append((i, v, lid, r.choice([1.0, 1.0, 1.5, r.uniform(-2, 2)])))
    X = [list(map(float, p)) for p in X]
    mon.case(dict(fam=fam, X=X, mems=mems, supp=supp, kind=kind, loads=loads, prof=[(repr(p), float(p.A)) for p in profs]))

    def vec():
        c = {}
        for i, v, lid, f in loads:
            p = c.setdefault(lid, [0.0]*(2*len(X)))
            p[2*i] += f*v[0]
            p[2*i+1] += f*v[1]
        return c
    cases = vec()
    EA = lambda: [210e3*float(p.A) for p in profs]
    sd = [2*i+d for i, k in supp for d in CLS[k][1]]
    for p in cases.values():
        pinned(X, mems, EA(), sd, p)
    t = ST.SimpleTruss([list(p) for p in X], [list(m) for m in mems], list(profs), truss_type="steel" if kind == "steel" else "general")
    for i, k in r.sample(supp, len(supp)):
        t.add(CLS[k][0](t.nodes[i]))
    hs = []
    for i, v, lid, f in loads:
        hs.append(PointLoad(t.nodes[i], list(v), load_id=lid, f=f))
        t.add(hs[-1])
    hist = []
    t.generate_fem()
    for step in range(r.choice([1, 2, 3, 4])):
        if step:
            what = r.choice(["section", "section", "area", "move", "load", "regen"])
            hist.append(what)
            k = r.randrange(len(mems))
            if what == "section":
                profs[k] = prof(r, kind)
                t.members[k].cross_section = profs[k]
            elif what == "area":
                if kind != "generic":
                    continue
                profs[k].A = 10**r.uniform(2, 4)
            elif what == "move":
                i = r.randrange(len(X))
                ax = r.randrange(2)
                X[i][ax] += r.uniform(-100, 100)
                setattr(t.nodes[i], "xy"[ax], X[i][ax])
            elif what == "load":
                q = r.randrange(len(loads))
                i, v, lid, f = loads[q]
                v = [r.uniform(-1e5, 1e5), r.uniform(-1e5, 1e5), 0.0]
                loads[q] = (i, v, lid, f)
                hs[q].v = np.array(v)
                cases = vec()
                t.generate_fem()
            else:
                t.generate_fem()
        cases = vec()
        lids = sorted(cases)
        meth = r.choice(["REM", "ZERO"])
        mode = r.choice(["calc", "all", "single"])
        if mode == "calc":
            t.calculate(support_method=meth, design=kind == "steel")
        elif mode == "all":
            t.structural_analysis("all", support_method=meth, design=False)
        else:
            for l in r.sample(lids, len(lids)):
                t.structural_analysis(l, support_method=meth, design=False)
        compare(mon, t, X, mems, EA(), supp, cases, lids, kind == "steel", "" if not step else "after edit: ", mode == "calc")
    mon.note("family:"+fam)
    mon.nontrivial((fam, len(X), len(mems), kind, tuple(hist), tuple(k for _, k in supp)))


def w_examples(r, mon):
    import matplotlib
    matplotlib.use("Agg")
    which = r.choice([3, 10, 15])
    kind = r.choice(["general", "steel"])
    if which == 3:
        L, F1, F2, nlc = r.uniform(500, 5000), r.uniform(-2e5, 2e5), r.uniform(-2e5, 2e5), r.choice([1, 2])
        profs = [prof(r, "steel") for _ in range(3)]
        mon.case(dict(which=3, L=L, F=[F1, F2], nlc=nlc, kind=kind, prof=[repr(p) for p in profs]))
        t = ST.three_bar_truss(L, F1, F2, nlc, profs, kind)
        X = [[0, 0], [-L, L], [0, L], [math.sqrt(3)*L, L]]
        mems = [[0, 1], [0, 2], [0, 3]]
        supp = [(1, "pin"), (2, "pin"), (3, "pin")]
        z = [0.0]*6
        cases = {lid: v+z for lid, v in ({t.load_ids[0]: [F2, F1]} if nlc == 1 else {2: [F2, 0.0], 3: [0.0, F1]}).items()}
        mon.ok("examples", set(t.load_ids) == set(cases), "cases %s" % t.load_ids)
    elif which == 10:
        L, F = r.uniform(1000, 8000), r.uniform(1e3, 3e5)
        profs = [prof(r, "steel") for _ in range(10)]
        mon.case(dict(which=10, L=L, F=F, kind=kind, prof=[repr(p) for p in profs]))
        t = ST.ten_bar_truss(L, F, profs, kind)
        X = [[2*L, L], [2*L, 0], [L, L], [L, 0], [0, 0], [0, L]]
        # classical numbering: chords, verticals, diagonals
        mems = [[4, 2], [2, 0], [5, 3], [3, 1], [2, 3], [0, 1], [4, 3], [5, 2], [2, 1], [3, 0]]
        supp = [(4, "pin"), (5, "pin")]
        cases = {t.load_ids[0]: [0, 0, 0, -F, 0, 0, 0, -F, 0, 0, 0, 0]}
    else:
        L, h, P = r.uniform(300, 6000), r.uniform(100, 2000), r.uniform(1e3, 1e5)
        mon.case(dict(which=15, L=L, h=h, P=P))
        t = ST.fifteen_bar_truss(L, h, P)
        import matplotlib.pyplot as plt
        plt.close("all")
        kind = "general"
        X = [[i*L/3, y] for y in (h, 0) for i in range(4)]
        mems = [[0, 1], [1, 2], [2, 3], [4, 5], [5, 6], [6, 7], [5, 1], [6, 2], [7, 3], [0, 5], [4, 1], [1, 6], [5, 2], [2, 7], [6, 3]]
        supp = [(0, "pin"), (4, "pin")]
        profs = [RHS(50, 50, 3)]*15
        cases = {t.load_ids[0]: [0.0]*15+[-P]}
    mon.ok("examples", len(t.members) == len(mems) and len(t.nodes) == len(X) and all(m.cross_section.A == p.A for m, p in zip(t.members.values(), profs)), "%d members, %d nodes" % (len(t.members), len(t.nodes)))
    EA = [210e3*float(p.A) for p in profs]
    compare(mon, t, X, mems, EA, supp, cases, list(cases), kind == "steel")
    mon.note("example:%d" % which)
    mon.nontrivial((which, kind, tuple(repr(p) for p in profs)))


WORKLOADS = {"truss": (w_truss, 1500, 30000), "examples": (w_examples, 300, 5000)}

if __name__ == "__main__":
    vm.main(globals())
