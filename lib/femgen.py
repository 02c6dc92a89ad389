"""Random frame models: one plain-data spec, built both as a metku model and as
a reference model (ref.frames)."""
import math, copy
import numpy as np
from ref.frames import Frame2D, Frame3D
from vm import CaseSkip

E_S = 210e3


def rnd_section(r):
    h = r.uniform(80, 600)
    A = r.uniform(800, 3.0e4)
    I = A*(h*r.uniform(0.3, 0.48))**2
    return round(A, 1), round(I, 0)


def _round(x):
    return x


def gen_nodes_elems(r, family=None):
    fam = family or r.choice(["beam", "portal", "tree", "arch", "braced", "truss", "springs"])
    nodes, elems, sup = [], [], []

    def node(x, y):
        nodes.append((float(x), float(y)))
        return len(nodes)-1

    def member(i, j, nsub, kind="beam", rel=()):
        A, I = rnd_section(r)
        E = E_S if r.random() < 0.8 else r.uniform(7e4, 2.1e5)
        prev = i
        a, b = np.array(nodes[i]), np.array(nodes[j])
        if kind != "beam":
            nsub = 1
        ids = []
        for k in range(1, nsub+1):
            if k == nsub:
                nx = j
            else:
                p = a + (b-a)*k/nsub
                nx = node(*p)
            e = dict(n=(prev, nx), E=E, A=A, I=I, rel=[], kind=kind)
            if kind == "spring":
                e["k"] = r.uniform(1e2, 1e5)
            ids.append(len(elems))
            elems.append(e)
            prev = nx
        if kind == "beam":
            if 2 in rel:
                elems[ids[0]]["rel"].append(2)
            if 5 in rel:
                elems[ids[-1]]["rel"].append(5)
        return ids

    def rel(p=0.15):
        return [d for d in (2, 5) if r.random() < p]
    U = r.uniform
    if fam == "beam":
        ang = r.choice([0, 0, math.pi/2, U(-math.pi, math.pi)])
        ns = r.randint(1, 4)
        x = 0
        ids = [node(0, 0)]
        for s in range(ns):
            x += U(1000, 8000)
            ids.append(node(x*math.cos(ang), x*math.sin(ang)))
        for a, b in zip(ids, ids[1:]):
            member(a, b, r.randint(1, 4), rel=rel(0.1))
        for k, i in enumerate(ids):
            t = r.random()
            if k == 0:
                sup.append((i, [0, 1, 2] if t < 0.5 else [0, 1]))
            elif t < 0.3:
                sup.append((i, [0, 1, 2]))
            elif t < 0.85:
                sup.append((i, [0, 1] if r.random() < 0.5 or abs(math.sin(2*ang)) > 1e-9 else [1 if abs(math.sin(ang)) < .5 else 0]))
    elif fam in ("portal", "braced", "springs"):
        nb, nst = r.randint(1, 3), r.randint(1, 3)
        xs = np.cumsum([0]+[U(2500, 9000) for _ in range(nb)])
        ys = np.cumsum([0]+[U(2500, 6000) for _ in range(nst)])
        g = {}
        pitched = r.random() < 0.5
        for i, x in enumerate(xs):
            for k, y in enumerate(ys):
                dx = U(-300, 300) if r.random() < 0.3 else 0
                dy = (U(0, 800) if pitched and k == nst else 0)
                g[i, k] = node(x+dx, y+dy)
        for i in range(nb+1):
            sup.append((g[i, 0], [0, 1, 2] if r.random() < 0.6 else [0, 1]))
            for k in range(nst):
                member(g[i, k], g[i, k+1], r.randint(1, 3), rel=rel(0.08))
        for k in range(1, nst+1):
            for i in range(nb):
                a, b = g[i, k], g[i+1, k]
                if r.random() < 0.3:
                    a, b = b, a
                member(a, b, r.randint(1, 3), rel=rel(0.12))
        if fam == "braced":
            for k in range(nst):
                i = r.randrange(nb)
                if r.random() < 0.5:
                    member(g[i, k], g[i+1, k+1], 1, kind="rod")
                else:
                    member(g[i+1, k], g[i, k+1], 1, rel=[2, 5])
        if fam == "springs":
            for _ in range(r.randint(1, 3)):
                i = r.randrange(nb+1)
                k = r.randint(1, nst)
                x, y = nodes[g[i, k]]
                b = node(x+U(300, 900)*r.choice([-1, 1]), y+r.choice([0, U(-500, 500)]))
                sup.append((b, [0, 1]))
                member(b, g[i, k], 1, kind="spring")
    elif fam == "tree":
        root = node(0, 0)
        sup.append((root, [0, 1, 2]))
        tips = [root]
        for _ in range(r.randint(1, 7)):
            t = r.choice(tips)
            x, y = nodes[t]
            a = U(-math.pi, math.pi)
            L = U(800, 4000)
            n = node(x+L*math.cos(a), y+L*math.sin(a))
            if r.random() < .5:
                member(t, n, r.randint(1, 3))
            else:
                member(n, t, r.randint(1, 3))
            tips.append(n)
        if r.random() < 0.5:
            sup.append((r.choice(tips), [r.randrange(3)]))
    elif fam == "arch":
        n = r.randint(2, 8)
        span, rise = U(5000, 30000), U(500, 6000)
        ids = []
        for k in range(n+1):
            s = k/n
            ids.append(node(span*s, 4*rise*s*(1-s)))
        h = r.random() < 0.4
        for k in range(n):
            member(ids[k], ids[k+1], r.randint(1, 2), rel=[5] if (h and k == n//2) else [])
        sup.append((ids[0], r.choice([[0, 1, 2], [0, 1]])))
        sup.append((ids[-1], r.choice([[0, 1, 2], [0, 1]])))
    elif fam == "truss":
        n = r.randint(1, 6)
        p, h = U(1000, 4000), U(800, 4000)
        bot = [node(k*p, 0) for k in range(n+1)]
        top = [node(k*p, h + U(-200, 200)) for k in range(n+1)]
        for k in range(n):
            member(bot[k], bot[k+1], 1, kind="rod")
            member(top[k], top[k+1], 1, kind="rod")
            if r.random() < .5:
                member(bot[k], top[k+1], 1, kind="rod")
            else:
                member(bot[k+1], top[k], 1, kind="rod")
        for k in range(n+1):
            member(bot[k], top[k], 1, kind="rod")
        sup.append((bot[0], [0, 1]))
        sup.append((bot[-1], [1]))
    return fam, nodes, elems, sup


def gen_pload(r, spec):
    i = r.randrange(len(spec["nodes"]))
    v = [r.choice([0, r.uniform(-1e5, 1e5)]), r.uniform(-1e5, 1e5),
         r.choice([0, r.uniform(-1e8, 1e8)])]
    if spec["family"] == "truss":
        v[2] = 0.0
    return dict(kind="p", node=i, v=v, f=r.choice([1.0, 1.0, 1.35, 1.5, -1.0, 0.5, r.uniform(0.1, 3)]))


def gen_lload(r, spec):
    be = [i for i, e in enumerate(spec["elems"]) if e["kind"] == "beam"]
    if not be:
        return gen_pload(r, spec)
    q1 = r.uniform(-40, 40)
    q2 = q1 if r.random() < 0.6 else r.choice([0.0, r.uniform(-40, 40)])
    return dict(kind="l", el=r.choice(be), q=[q1, q2], dir=r.choice("xyy"),
                coords=r.choice(["global", "global", "local"]),
                f=r.choice([1.0, 1.0, 1.15, 1.5, -1.0, r.uniform(0.1, 3)]))


def gen_spec(r, family=None, ncases=None):
    fam, nodes, elems, sup = gen_nodes_elems(r, family)
    spec = dict(family=fam, nodes=nodes, elems=elems, supports=sup, cases={})
    nc = ncases or r.choice([1, 1, 2, 3])
    for lid in r.sample([0, 1, 2, 5, 7], nc):
        lds = []
        for _ in range(r.randint(1, 5)):
            lds.append(gen_lload(r, spec) if r.random() < 0.6 else gen_pload(r, spec))
        # make repeated line loads on the same element common
        ll = [l for l in lds if l["kind"] == "l"]
        if ll and r.random() < 0.4:
            c = gen_lload(r, spec)
            if c["kind"] == "l":
                c["el"] = ll[0]["el"]
            lds.append(c)
        spec["cases"][lid] = lds
    return spec


def build_metku(spec, mods, order=None):
    FF, EB, Rod, Spring = mods
    fem = FF.FrameFEM()
    for x, y in spec["nodes"]:
        fem.add_node(x, y)
    els = []
    for e in spec["elems"]:
        els.append(make_elem(fem, e, mods))
    perm = list(range(len(els))) if order is None else order
    for k in perm:
        fem.add_element(els[k])
    for nid, dofs in spec["supports"]:
        fem.add_support(1, nid, list(dofs), 0)
    handles = {}
    for lid, lds in spec["cases"].items():
        for l in lds:
            h = add_load(fem, els, lid, l, mods)
            handles[id(l)] = h
    for lid in spec["cases"]:
        fem.add_loadcase(1, lid)
    fem.nodal_dofs()
    return fem, els, handles


def make_elem(fem, e, mods):
    FF, EB, Rod, Spring = mods
    n1, n2 = fem.nodes[e["n"][0]], fem.nodes[e["n"][1]]
    if e["kind"] == "spring":
        return Spring(n1, n2, e["k"])
    mat = fem.add_material(e["E"], 0.3, 7.85e-6)
    sec = FF.BeamSection(e["A"], e["I"])
    fem.add_section(sec)
    if e["kind"] == "rod":
        return Rod(n1, n2, sec, mat)
    el = EB(n1, n2, sec, mat)
    if e["rel"]:
        el.releases = list(e["rel"])
    return el


def add_load(fem, els, lid, l, mods):
    FF = mods[0]
    if l["kind"] == "p":
        h = FF.PointLoad(lid, fem.nodes[l["node"]], list(l["v"]), l["f"])
    else:
        h = FF.LineLoad(lid, els[l["el"]], [0, 1], list(l["q"]), l["dir"], l["coords"])
        h.f = l["f"]
    fem.add_load(h)
    return h


def ref_loads(lds):
    pl, ll = [], {}
    for l in lds:
        if l["kind"] == "p":
            pl.append((l["node"], [l["f"]*a for a in l["v"]]))
        else:
            ll.setdefault(l["el"], []).append(dict(q=l["q"], dir=l["dir"], coords=l["coords"], f=l["f"]))
    return pl, ll


def ref_solve(spec):
    """reference results per load case; raises CaseSkip for unstable structures"""
    fr = Frame2D(spec["nodes"], spec["elems"], spec["supports"])
    out = {}
    for lid, lds in spec["cases"].items():
        pl, ll = ref_loads(lds)
        try:
            U, R = fr.solve(pl, ll)
        except np.linalg.LinAlgError:
            raise CaseSkip("unstable")
        if not np.isfinite(fr.cond) or fr.cond > 1e8:
            raise CaseSkip("ill conditioned")
        out[lid] = (U, R, fr.react.copy(), fr)
    return out


def scales(spec, res):
    """magnitudes that tolerances are relative to: over all cases"""
    F = M = u = th = 0
    for lid, (U, R, _, _) in res.items():
        u = max(u, np.max(np.abs(U[:, :2])))
        th = max(th, np.max(np.abs(U[:, 2])))
        for r in R:
            F = max(F, np.max(np.abs(r[[0, 1, 3, 4]])))
            M = max(M, np.max(np.abs(r[[2, 5]])))
    Lc = np.max(np.ptp(np.asarray(spec["nodes"]), axis=0))
    return max(u, 1e-9), max(th, u/Lc, 1e-12), max(F, M/Lc, 1e-6), max(M, F*1.0, 1e-3)


def compare(mon, spec, els, nodes, res, lids, tol=2e-4, prefix="", order=1):
    su, sth, sF, sM = scales(spec, res)
    for lid in lids:
        U, R, react, fr = res[lid]
        for i, n in enumerate(nodes):
            uu = np.asarray((n.u if order == 1 else n.u2)[lid], float)
            mon.close(prefix+"displacements", uu[:2], U[i, :2], 0, tol*su, "node %d case %s" % (i, lid))
            if fr.dof[i, 2] >= 0 and not all_rel(spec, i):
                mon.close(prefix+"rotations", uu[2], U[i, 2], 0, tol*sth, "node %d case %s" % (i, lid))
        for ie, (e, el) in enumerate(zip(spec["elems"], els)):
            f = (el.fint if order == 1 else el.fint2)[lid]
            r = R[ie]
            mon.close(prefix+"axial_force", f["fx"], [-r[0], r[3]], 0, tol*sF, "element %d case %s" % (ie, lid))
            if e["kind"] == "beam":
                mon.close(prefix+"shear_force", f["fz"], [r[1], -r[4]], 0, tol*sF, "element %d case %s" % (ie, lid))
                mon.close(prefix+"bending_moment", f["my"], [-r[2], r[5]], 0, tol*sM, "element %d case %s" % (ie, lid))


def all_rel(spec, i):
    for e in spec["elems"]:
        if e["kind"] == "beam":
            for a, d in ((0, 2), (1, 5)):
                if e["n"][a] == i and d not in e["rel"]:
                    return False
    return True


def equilibrium(mon, spec, els, nodes, lids, res, tol=2e-4, prefix=""):
    """assembled member end forces balance the applied nodal loads at every
    unsupported degree of freedom, and the reactions balance all the loads"""
    su, sth, sF, sM = scales(spec, res)
    supp = {}
    for nid, dofs in spec["supports"]:
        supp.setdefault(nid, set()).update(dofs)
    for lid in lids:
        n = len(spec["nodes"])
        out = np.zeros((n, 3))
        for e, el in zip(spec["elems"], els):
            f = el.fint[lid]
            i, j = e["n"]
            d = np.array(spec["nodes"][j]) - np.array(spec["nodes"][i])
            L = np.hypot(*d)
            c, s = d/L
            N1, N2 = f["fx"]
            if e["kind"] == "beam":
                V1, V2 = f["fz"]
                M1, M2 = f["my"]
            else:
                V1 = V2 = M1 = M2 = 0
            r = [-N1, V1, -M1, N2, -V2, M2]
            for a, q in ((i, r[:3]), (j, r[3:])):
                out[a] += [c*q[0]-s*q[1], s*q[0]+c*q[1], q[2]]
        pl, ll = ref_loads(spec["cases"][lid])
        for nid, v in pl:
            out[nid] -= v
        for i in range(n):
            for d in range(3):
                if d in supp.get(i, ()) or res[lid][3].dof[i, d] < 0:
                    continue
                mon.close(prefix+"nodal_equilibrium", out[i, d], 0, 0, tol*(sF if d < 2 else sM)*4,
                          "node %d dof %d case %s" % (i, d, lid))
