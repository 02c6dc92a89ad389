"""Random Raami frames together with a plain-data description and the reference solution."""
import math
import numpy as np
from ref.frames import Frame2D
from vm import CaseSkip
from metku.raami.raami import Raami, FrameNode, SteelFrameMember
from metku.raami.frame_loads import PointLoad, LineLoad, PWLineLoad, LoadCase, LoadCombination
from metku.raami.frame_supports import Support, FixedSupport, XYHingedSupport, XHingedSupport, YHingedSupport
from metku.sections.steel.ISection import IPE, HEA, HEB
from metku.sections.steel.RHS import RHS, SHS
from metku.sections.steel.CHS import CHS

E = 210e3
IPES = [160, 200, 240, 300, 360, 400, 500]
HES = [140, 180, 200, 240, 280, 300, 400]


def section(r):
    k = r.choice(["IPE", "HEA", "HEB", "RHS", "SHS", "CHS"])
    if k == "IPE":
        return IPE(r.choice(IPES))
    if k == "HEA":
        return HEA(r.choice(HES))
    if k == "HEB":
        return HEB(r.choice(HES))
    if k == "RHS":
        return RHS(r.choice([200, 250, 300]), r.choice([100, 150]), r.choice([6, 8, 10]))
    if k == "SHS":
        return SHS(r.choice([120, 160, 200, 250]), r.choice([6, 8, 10]))
    return CHS(r.choice([139.7, 168.3, 219.1, 273.0]), r.choice([5, 6, 8, 10]))


class Spec:
    """nodes: list [x,y]; members: dict(n,sec,nel,hinges,mtype); supports: (node, dofs);
    loads: dict(kind,id,...,f,ltype)"""
    pass


def topology(r):
    U = r.uniform
    S = Spec()
    S.nodes, S.members, S.supports, S.loads = [], [], [], []

    def nd(x, y):
        S.nodes.append([float(x), float(y)])
        return len(S.nodes) - 1

    def mem(i, j, mt="beam", hinges=(False, False), nel=None):
        S.members.append(dict(n=(i, j), sec=section(r), nel=nel or r.choice([1, 2, 3, 4, 6]), hinges=list(hinges), mtype=mt))
        return len(S.members) - 1

    def h(p=0.15):
        return [r.random() < p, r.random() < p]
    fam = r.choice(["beam", "portal", "multi", "braced", "truss"])
    S.fam = fam
    if fam == "beam":
        a = r.choice([0, 0, math.pi / 2, U(-math.pi, math.pi)])
        x, ids = 0, [nd(0, 0)]
        for _ in range(r.randint(1, 3)):
            x += U(2000, 8000)
            ids.append(nd(x * math.cos(a), x * math.sin(a)))
        for i, j in zip(ids, ids[1:]):
            if r.random() < 0.25:
                i, j = j, i
            mem(i, j, hinges=h(0.08))
        S.supports.append((ids[0], r.choice([[0, 1, 2], [0, 1]])))
        for i in ids[1:]:
            if r.random() < 0.75:
                S.supports.append((i, r.choice([[0, 1], [0, 1, 2], [0, 1]])))
    elif fam in ("portal", "multi", "braced"):
        nb, ns = (1, 1) if fam == "portal" else (r.randint(1, 3), r.randint(1, 2))
        xs = np.cumsum([0] + [U(3000, 9000) for _ in range(nb)])
        ys = np.cumsum([0] + [U(2800, 6000) for _ in range(ns)])
        g = {(i, k): nd(x, y + (U(0, 900) if k == ns and fam != "braced" else 0)) for i, x in enumerate(xs) for k, y in enumerate(ys)}
        for i in range(nb + 1):
            S.supports.append((g[i, 0], r.choice([[0, 1, 2], [0, 1, 2], [0, 1]])))
            for k in range(ns):
                mem(g[i, k], g[i, k + 1], "column", h(0.05))
        for k in range(1, ns + 1):
            for i in range(nb):
                a, b = g[i, k], g[i + 1, k]
                if r.random() < 0.2:
                    a, b = b, a
                if fam == "portal" and r.random() < 0.5:
                    # pitched roof with a ridge node
                    m = nd(0.5 * (S.nodes[a][0] + S.nodes[b][0]), max(S.nodes[a][1], S.nodes[b][1]) + U(300, 1500))
                    mem(a, m, "beam", h(0.06))
                    mem(m, b, "beam", h(0.06))
                else:
                    mem(a, b, "beam", h(0.2))
        if fam == "braced":
            for k in range(ns):
                i = r.randrange(nb)
                a, b = (g[i, k], g[i + 1, k + 1]) if r.random() < 0.5 else (g[i + 1, k], g[i, k + 1])
                mem(a, b, r.choice(["brace", "bar"]), nel=1)
    else:
        n = r.randint(2, 5)
        p, hh = U(1500, 3000), U(1000, 2500)
        bot = [nd(k * p, 0) for k in range(n + 1)]
        top = [nd(k * p, hh + U(0, 300)) for k in range(n + 1)]
        for k in range(n):
            mem(bot[k], bot[k + 1], "bottom_chord")
            mem(top[k], top[k + 1], "top_chord")
            a, b = (bot[k], top[k + 1]) if r.random() < 0.5 else (top[k], bot[k + 1])
            mem(a, b, r.choice(["brace", "bar"]), nel=1)
        for k in range(n + 1):
            if r.random() < 0.7:
                mem(bot[k], top[k], "brace", nel=1)
            else:
                mem(bot[k], top[k], "beam", [True, True] if 0 < k < n else [False, False])
        S.supports = [(bot[0], [0, 1]), (bot[-1], [1])]
    # no support list twice for the same node
    seen, sup = set(), []
    for i, d in S.supports:
        if i not in seen:
            seen.add(i)
            sup.append((i, d))
    S.supports = sup
    return S


LTYPES = ["live", "dead", "wind", "snow"]


def gen_load(r, S, lid):
    beams = [i for i, m in enumerate(S.members) if m["mtype"] not in ("bar", "brace")]
    f = r.choice([1.0, 1.0, 1.0, 1.35, r.uniform(0.2, 2)])
    lt = r.choice(LTYPES)
    name = r.choice([None, None, "L", "q", "q1", "q2"])
    k = r.choice(["p", "l", "l", "l", "pw"]) if beams else "p"
    if k == "p":
        v = [r.choice([0.0, r.uniform(-5e4, 5e4)]), r.uniform(-5e4, 5e4), r.choice([0, 0, r.uniform(-5e7, 5e7)])]
        i = r.randrange(len(S.nodes))
        if not any(i in S.members[m]["n"] and not all(S.members[m]["hinges"]) for m in beams):
            v[2] = 0.0
        return dict(kind="p", id=lid, node=i, v=v, f=f, ltype=lt, name=name)
    m = r.choice(beams)
    q = [r.uniform(-30, 30)] * 2 if r.random() < 0.6 else [r.uniform(-30, 30), r.uniform(-30, 30)]
    d = dict(kind=k, id=lid, mem=m, q=q, dir=r.choice("xyy"), coords=r.choice(["global", "global", "local"]), f=f, ltype=lt, name=name)
    if k == "pw":
        n = S.members[m]["nel"]
        d["cut"] = r.randint(0, n)
        d["q"] = [r.uniform(-30, 30), r.uniform(-30, 30)]
    return d


def gen_loads(r, S, ids, per=3):
    for lid in ids:
        for _ in range(r.randint(1, per)):
            S.loads.append(gen_load(r, S, lid))


SUPP = {(0, 1, 2): FixedSupport, (0, 1): XYHingedSupport, (0,): XHingedSupport, (1,): YHingedSupport}


def build_members(S, r=None):
    f = Raami()
    nodes = []
    for x, y in S.nodes:
        n = FrameNode([x, y]) if r is None or r.random() < 0.7 else FrameNode(x, y)
        nodes.append(n)
        f.add(n)
    mems = []
    for m in S.members:
        kw = {}
        if any(m["hinges"]) or (r is not None and r.random() < 0.5):
            kw["hinges"] = list(m["hinges"])
        mm = SteelFrameMember([nodes[m["n"][0]], nodes[m["n"][1]]], m["sec"], mem_type=m["mtype"], nel=m["nel"], **kw)
        mems.append(mm)
        f.add(mm)
    for i, d in S.supports:
        f.add(SUPP[tuple(d)](nodes[i]) if r is None or r.random() < 0.7 else Support(nodes[i], list(d)))
    return f, nodes, mems


def make_load(S, l, nodes, mems):
    kw = dict(load_id=l["id"], ltype=l["ltype"], f=l["f"])
    if l["name"]:
        kw["name"] = l["name"]
    if l["kind"] == "p":
        return PointLoad(nodes[l["node"]], list(l["v"]), **kw)
    if l["kind"] == "l":
        return LineLoad(mems[l["mem"]], list(l["q"]), l["dir"], coord_sys=l["coords"], **kw)
    return PWLineLoad(mems[l["mem"]], list(l["q"]), l["cut"] / S.members[l["mem"]]["nel"], l["dir"], coord_sys=l["coords"], **kw)


def reference(S, cases, need_cond=1e8):
    """cases: {lid: [(load, factor)]}.  Returns {lid: [(U, forces)]} per member, exact"""
    nodes = [list(n) for n in S.nodes]
    elems, mapn, mape = [], [], []
    for m in S.members:
        a, b = np.array(S.nodes[m["n"][0]]), np.array(S.nodes[m["n"][1]])
        ns = [m["n"][0]]
        kind = "rod" if m["mtype"] in ("bar", "brace") else "beam"
        for k in range(1, m["nel"]):
            nodes.append(list(a + (b - a) * k / m["nel"]))
            ns.append(len(nodes) - 1)
        ns.append(m["n"][1])
        es = []
        for k in range(m["nel"]):
            rel = []
            if k == 0 and m["hinges"][0]:
                rel.append(2)
            if k == m["nel"] - 1 and m["hinges"][1]:
                rel.append(5)
            es.append(len(elems))
            elems.append(dict(n=(ns[k], ns[k + 1]), E=E, A=m["sec"].A, I=m["sec"].I[0], rel=rel if kind == "beam" else [], kind=kind))
        mapn.append(ns)
        mape.append(es)
    fr = Frame2D(nodes, elems, S.supports)
    out = {}
    for lid, lds in cases.items():
        pl, ll = [], {}
        for l, fac in lds:
            f = l["f"] * fac
            if l["kind"] == "p":
                pl.append((l["node"], [f * v for v in l["v"]]))
                continue
            n = S.members[l["mem"]]["nel"]
            q0, q1 = l["q"]
            for k, e in enumerate(mape[l["mem"]]):
                if l["kind"] == "l":
                    qq = [q0 + (q1 - q0) * k / n, q0 + (q1 - q0) * (k + 1) / n]
                else:
                    qq = [q0, q0] if k < l["cut"] else [q1, q1]
                ll.setdefault(e, []).append(dict(q=qq, dir=l["dir"], coords=l["coords"], f=f))
        try:
            U, R = fr.solve(pl, ll)
        except np.linalg.LinAlgError:
            raise CaseSkip("unstable")
        if not np.isfinite(fr.cond) or fr.cond > need_cond:
            raise CaseSkip("ill conditioned")
        res = []
        for m, ns, es in zip(S.members, mapn, mape):
            N = [-R[e][0] for e in es] + [R[es[-1]][3]]
            V = [R[e][1] for e in es] + [-R[es[-1]][4]]
            M = [-R[e][2] for e in es] + [R[es[-1]][5]]
            res.append((U[ns], N, V, M))
        out[lid] = res
    allrel = [not any(m["mtype"] not in ("bar", "brace") and ((m["n"][0] == i and not m["hinges"][0]) or (m["n"][1] == i and not m["hinges"][1]))
                      for m in S.members) for i in range(len(S.nodes))]
    return out, allrel


def compare(mon, S, mems, ref, allrel, lids, d, tol=3e-4):
    u = max([np.max(np.abs(x[0][:, :2])) for res in ref.values() for x in res] + [1e-9])
    th = max([np.max(np.abs(x[0][:, 2])) for res in ref.values() for x in res] + [1e-6 * u, 1e-12])
    F = max([np.max(np.abs(x[k])) for res in ref.values() for x in res for k in (1, 2)] + [1e-6])
    M = max([np.max(np.abs(x[3])) for res in ref.values() for x in res] + [F, 1e-3])
    for lid in lids:
        for k, (m, mm) in enumerate(zip(S.members, mems)):
            U, N, V, My = ref[lid][k]
            dd = "%s member %d case %s" % (d, k, lid)
            f = mm.nodal_forces[lid]
            mon.close("axial forces", f["N"], N, 0, tol * F, dd)
            bar = m["mtype"] in ("bar", "brace")
            if not bar:
                mon.close("shear forces", f["Vz"], V, 0, tol * F, dd)
                mon.close("moments", f["My"], My, 0, tol * M, dd)
            g = np.array([np.asarray(x, float) for x in mm.nodal_displacements[lid]])
            mon.close("displacements", g[:, :2], U[:, :2], 0, tol * u, dd)
            if not bar:
                sel = [j for j in range(len(U)) if not ((j == 0 and allrel[m["n"][0]]) or (j == len(U) - 1 and allrel[m["n"][1]]))]
                mon.close("rotations", g[sel, 2], U[sel, 2], 0, tol * th, dd)
            for nm, key, sc in (("NEd", "N", F), ("VzEd", "Vz", F), ("MyEd", "My", M)):
                vals = f[key]
                want = max(vals, key=abs)
                got = getattr(mm, nm)[lid]
                mon.ok("design forces", abs(abs(got) - abs(want)) <= 1e-12 * sc and any(got == v for v in vals), "%s %s=%s of %s" % (dd, nm, got, vals))
