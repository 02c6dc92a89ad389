"""W03: timber frames: the members given by the user are analysed and designed with their own dimensions, forces, supports and contacts."""
import os, sys, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vm
sys.path.insert(0, vm.VERIF)
import numpy as np
import w01, w02
from w01 import TS, SOLID, GLT, LVL, Spec, height, face
import metku.frame2d.frame2d as FD
from ref.frames import Frame2D as Ref

PROPERTY = "W03"
RULE = ("random plane timber frames given through Frame2D (single beams, portals, storey frames, beams with posts above and below; columns also of steel; prismatic, mono-pitch, ridge, belly, curved and pitched cambered members of all timber types, "
        "numbers of elements, end stiffnesses, lateral supports, load durations, service classes), point loads and supports anywhere, line loads, 1-3 load cases, self weight, any order of adding and direction of the members; "
        "re-analysed after changes of dimensions, sections, materials, end stiffnesses, storey height and fire duration; compared with an independent frame solver and a separate implementation of the design rules. "
        "Non-trivial: distinct (family, kinds of sections, timber types, edits).")
MONITORS = ["mesh", "displacements", "axial forces", "shear forces", "moments", "section forces", "lateral supports", "strength", "design strength", "axial", "shear reduction", "bending", "buckling length", "buckling", "lateral buckling",
            "contact", "utilization", "strong enough", "weight", "self weight"]
IDS = [FD.LoadIDs.ULS, FD.LoadIDs.SLS_Frequent, 2, "wind"]
SUP = {"F": (FD.FixedSupport, [0, 1, 2]), "H": (FD.XYHingedSupport, [0, 1]), "Y": (FD.YHingedSupport, [1])}
STEEL = ["HE 160 A", "HE 240 B", "IPE 300", "RHS 150X100X6", "SHS 120X120X5", "CHS 168.3X6.3", "WI 300-8-12X150-12X150"]
TOL = 5e-4
KC90 = {"S": 1.5, "G": 1.75}


def R3(p):
    return [round(float(c), 3) for c in p]


def mksec(r, L, kinds, mat=None):
    s = Spec()
    s.kind = r.choice(kinds)
    s.mat = mat or r.choice([r.choice(SOLID), r.choice(GLT), r.choice(LVL)])
    s.B = r.choice([90.0, 140.0, 190.0, r.uniform(80, 250)])
    s.H = r.choice([200.0, 315.0, 405.0, round(L * r.uniform(0.03, 0.08), 1)])
    s.L = L
    s.R, s.onfire = 0, 3
    s.fp = dict.fromkeys(("right", "left", "top", "bottom"))
    kw = dict(material=s.mat)
    if s.kind == "prism":
        s.obj = TS.TimberSection(s.B, s.H, **kw)
    elif s.kind == "mono":
        s.Hap = s.H * r.uniform(0.6, 2.0)
        s.obj = TS.PulpettiPalkki(s.B, s.H, s.Hap, **kw)
    elif s.kind == "ridge":
        s.Hap, s.xap = s.H * r.uniform(1.02, 2.0), r.choice([0.5, 0.5, r.uniform(0.3, 0.7)])
        s.obj = TS.HarjaPalkki(s.B, s.H, s.Hap, s.xap, **kw)
    elif s.kind == "belly":
        s.alpha, s.xap = r.uniform(1, 5), r.choice([0.5, 0.5, r.uniform(0.3, 0.7)])
        s.obj = TS.MahaPalkki(s.B, s.H, s.alpha, s.xap, **kw)
    else:
        s.xap = 0.5
        s.beta = r.uniform(2, 12)
        s.alpha = s.beta + r.choice([0, r.uniform(0, 4)])
        s.r = r.uniform(0.2, 0.45) * L / math.sin(math.radians(s.alpha))
        s.obj = (TS.KaarevaPalkki if s.kind == "curved" else TS.KaarevaHarjaPalkki)(s.B, s.H, s.alpha, s.beta, s.r, **kw)
    return s


BEAMS = ["prism", "prism", "mono", "ridge", "belly", "curved", "cambered"]


def member(r, S, a, b, kind, steel=False, kinds=None, depth=None):
    a, b = R3(a), R3(b)
    if r.random() < 0.35:
        a, b = b, a
    L = math.dist(a, b)
    m = dict(c=[a, b], kind=kind, n=r.choice([1, 2, 3, 4, 5, 6, 8]), Sj=[None, None], obj=None, prof=None, sec=None)
    if steel:
        m["prof"] = r.choice(STEEL)
    else:
        k = kinds or (BEAMS if kind in ("beam", "rigid-beam") else ["prism", "prism", "mono"])
        m["sec"] = s = mksec(r, L, k)
        if depth:
            s.obj.H = s.H = depth
        s.mtype = kind
        s.ldc, s.sc, s.varn = r.choice(list(w02.KMOD)), r.choice([1, 2, 3]), r.random() < 0.3
        lat = lambda: sorted({round(r.uniform(0.05, 0.95), 3) for _ in range(r.choice([0, 0, 1, 2, 5]))})
        s.given = [lat() if r.random() < 0.5 else [], lat()]
        s.edge = r.choice(["compression", "tension", "other"])
        s.bf = r.choice([None, None, None, r.uniform(0.5, 2.2), [r.uniform(0.5, 2.2), r.uniform(0.5, 2.2)]])
        s.kvol = None
        if kind == "beam":
            for i in (0, 1):
                if r.random() < 0.5:
                    m["Sj"][i] = r.choice([0.0, 10 ** r.uniform(8, 12), 10 ** r.uniform(8, 12), math.inf])
    S["mem"].append(m)
    return m


def at(m, t):
    a, b = np.array(m["c"][0]), np.array(m["c"][1])
    return np.array(R3(a + t * (b - a)))


def crowded(S):
    """points of a member that are neither the same nor clearly apart"""
    given = [q for m in S["mem"] for q in m["c"]] + [c for c, _ in S["sup"]] + [l["c"] for l in S["loads"] if l["k"] == "p"]
    for m in S["mem"]:
        a, b = np.array(m["c"][0]), np.array(m["c"][1])
        L = np.linalg.norm(b - a)
        d = (b - a) / L
        t = [(p - a) @ d for p in map(np.array, given) if -1 <= (p - a) @ d <= L + 1 and abs(d[0] * (p - a)[1] - d[1] * (p - a)[0]) < 1]
        for i, u in enumerate(t):
            if any(1e-6 < abs(u - v) < 1.0 for v in t[:i]) or any(1e-6 < abs(u - L * round(j / m["n"], 3)) < 1.0 for j in range(m["n"] + 1)):
                return True
    return False


def topology(r):
    S = dict(mem=[], sup=[], loads=[], sw=False)
    U = r.uniform
    S["fam"] = fam = r.choice(["beam", "beam", "portal", "portal", "storeys", "posts"])
    H, L = r.choice([3000, 4500, U(2500, 6000)]), r.choice([6000, 9000, U(4000, 20000)])
    bt = lambda: r.choice(["beam", "beam", "beam", "rigid-beam"])
    if fam == "beam":
        sl = r.choice([0, 0, U(-0.2, 0.3)])
        m = member(r, S, (0, 0), (L, sl * L), r.choice(["beam", "beam", "rigid-beam", ""]))
        S["sup"] += [(m["c"][0], r.choice("FH")), (m["c"][1], r.choice("YHF"))]
        if r.random() < 0.3:
            S["sup"].append((list(map(float, at(m, U(0.15, 0.85)))), "Y"))
    elif fam == "portal":
        st = r.random() < 0.3
        for x in (0, L):
            member(r, S, (x, 0), (x, H), "column", steel=st)
            S["sup"].append((R3((x, 0)), r.choice("FFH")))
        if all(k == "H" for _, k in S["sup"]):
            S["sup"][0] = (S["sup"][0][0], "F")
        member(r, S, (0, H), (L, H), bt())
    elif fam == "storeys":
        bays, n = r.choice([1, 2]), r.choice([1, 2, 2])
        d = r.choice([240.0, 315.0, 360.0])
        mat = r.choice([r.choice(SOLID), r.choice(GLT), r.choice(LVL)])
        xs = [0, L] if bays == 1 else [0, L, L * U(1.6, 2.2)]
        for k in range(n):
            for x in xs:
                member(r, S, (x, k * H), (x, (k + 1) * H), "column", kinds=["prism"], depth=d)
                if not k:
                    S["sup"].append((R3((x, 0)), r.choice("FFH")))
            for i in range(bays):
                member(r, S, (xs[i], (k + 1) * H), (xs[i + 1], (k + 1) * H), bt(), kinds=["prism", "prism", "ridge", "mono"])
        if all(k == "H" for _, k in S["sup"]):
            S["sup"][0] = (S["sup"][0][0], "F")
    else:
        b = member(r, S, (0, 0), (L, 0), bt())
        c0, c1 = sorted(b["c"])
        if r.random() < 0.5:
            S["sup"].append((c0, r.choice("FH")))
        else:
            member(r, S, c0, (c0[0], -H), "column", steel=r.random() < 0.3)
            S["sup"].append((R3((c0[0], -H)), "F"))
        S["sup"].append((c1, r.choice("YH")))
        for _ in range(r.choice([1, 2])):
            x = r.choice([1 / 3, 2 / 3, 0.5, U(0.15, 0.85), U(0.15, 0.85)]) * L
            if any(abs(x - q["c"][0][0]) < 0.06 * L for q in S["mem"][1:]):
                continue
            if r.random() < 0.5:
                member(r, S, (x, 0), (x, -H), "column", steel=r.random() < 0.3)
                S["sup"].append((R3((x, -H)), r.choice("FH")))
            else:
                m = member(r, S, (x, 0), (x, H * U(0.2, 0.5)), "column", steel=r.random() < 0.3)
                m["post"] = True
    posts = [m for m in S["mem"] if m.get("post")]
    for lid in r.sample(IDS, r.choice([1, 1, 2, 3])):
        for _ in range(r.randint(1, 3)):
            m = r.choice(S["mem"])
            if r.random() < 0.6:
                q = r.choice([U(-12, -1), U(-12, -1), U(-8, 8)])
                S["loads"].append(dict(k="l", m=m, q=[q, r.choice([q, q, U(-8, 8)])], dir="y" if m["kind"] != "column" else "x", cs="global", f=r.choice([1.0, 1.0, 1.35, U(0.5, 2)]), id=lid))
            else:
                t = r.choice([0, 1, 0.5, U(0.05, 0.95), U(0.05, 0.95), 1 / 3])
                S["loads"].append(dict(k="p", c=list(map(float, at(m, t))), v=[r.choice([0, U(-1e4, 1e4)]), U(-3e4, 1e4), r.choice([0, 0, U(-5e6, 5e6)])], f=r.choice([1.0, 1.0, U(-1, 2)]), id=lid))
        for m in posts:
            if r.random() < 0.7:
                top = max(m["c"], key=lambda p: p[1])
                S["loads"].append(dict(k="p", c=list(top), v=[0, U(-6e4, -1e4), 0], f=1.0, id=lid))
    S["sw"] = r.random() < 0.3
    return S


def make(m, r):
    c = [list(p) for p in m["c"]]
    s = m["sec"]
    if s is None:
        return FD.SteelColumn(c, profile=m["prof"], num_elements=m["n"])
    kw = dict(mtype=s.mtype, ldc=s.ldc, sc=s.sc, varnished=s.varn, num_elements=m["n"], edge_load=s.edge, beta=s.bf)
    ly, lz = list(s.given[0]), list(s.given[1])
    r.shuffle(ly)
    r.shuffle(lz)
    if ly or r.random() < 0.5:
        kw["lateral_support_y"] = ly
    if lz or r.random() < 0.5:
        kw["lateral_support_z"] = lz
    pre = r.random() < 0.5
    for i, k in enumerate(("Sj1", "Sj2")):
        if pre and m["Sj"][i] is not None:
            kw[k] = m["Sj"][i]
    o = FD.TimberFrameMember(c, s.obj, **kw)
    if not pre:
        for i, k in enumerate(("Sj1", "Sj2")):
            if m["Sj"][i] is not None:
                setattr(o, k, m["Sj"][i])
    return o


def build(r, S):
    f = FD.Frame2D()
    acts = [("m", m) for m in S["mem"]]
    r.shuffle(acts)
    tail = [("s", s) for s in S["sup"]] + [("p", l) for l in S["loads"] if l["k"] == "p"]
    r.shuffle(tail)
    acts += tail
    if r.random() < 0.3:
        r.shuffle(acts)
    for k, x in acts:
        if k == "m":
            x["obj"] = make(x, r)
            f.add(x["obj"])
        elif k == "s":
            f.add(SUP[x[1]][0](list(x[0])))
        else:
            f.add(FD.PointLoad(list(x["c"]), list(x["v"]), load_id=x["id"], f=x["f"]))
    for x in S["loads"]:
        if x["k"] == "l":
            f.add(FD.LineLoad(x["m"]["obj"], list(x["q"]), x["dir"], load_id=x["id"], f=x["f"], coord_sys=x["cs"]))
    return f


def burnt(s):
    return w01.char(None, w01.rates(s.mat)[1], s.R)


def AI(s, x):
    c = burnt(s)
    b, h = s.B - 2 * c, height(s, x) - c
    return b * h, b * h ** 3 / 12


def locs(m):
    a = np.array(m["obj"].nodes[next(iter(m["obj"].nodes))].coord)
    p = [np.array(n.coord) for n in m["obj"].nodes.values()]
    L = np.linalg.norm(p[-1] - p[0])
    return [float(np.linalg.norm(q - a) / L) for q in p]


def reference(S, swq):
    pts = []

    def pid(p):
        for i, q in enumerate(pts):
            if abs(q[0] - p[0]) < 5e-3 and abs(q[1] - p[1]) < 5e-3:
                return i
        pts.append([float(p[0]), float(p[1])])
        return len(pts) - 1
    elems, idx = [], []
    for m in S["mem"]:
        ns, x = list(m["obj"].nodes.values()), locs(m)
        ids = []
        for i, (a, b) in enumerate(zip(ns[:-1], ns[1:])):
            ids.append(len(elems))
            if m["sec"] is None:
                A, I, E = float(m["obj"].cross_section.A), float(m["obj"].cross_section.I[0]), 210e3
            else:
                A, I = AI(m["sec"], 0.5 * (x[i] + x[i + 1]))
                E = w02.raw(m["sec"].mat)["E0mean"]
            elems.append(dict(n=(pid(a.coord), pid(b.coord)), E=E, A=A, I=I, kind="beam", rel=[], spr={}))
        if m["kind"] == "beam":
            for e, d, k in ((ids[0], 2, m["Sj"][0]), (ids[-1], 5, m["Sj"][1])):
                if k is not None and k < 1e20:
                    if k <= 1e-4:
                        elems[e]["rel"].append(d)
                    else:
                        elems[e]["spr"][d] = k
        idx.append(ids)
    sup = [(pid(c), SUP[k][1]) for c, k in S["sup"]]
    cases = {}
    loads = list(S["loads"])
    for l in loads + [dict(k="l", m=m, q=q, dir="y", cs="global", f=1.0, id=FD.LoadIDs.ULS) for m, q in swq]:
        c = cases.setdefault(l["id"], ([], {}))
        if l["k"] == "p":
            c[0].append((pid(l["c"]), [l["f"] * v for v in l["v"]]))
        else:
            k = [i for i, m in enumerate(S["mem"]) if m is l["m"]][0]
            x = locs(l["m"])
            for i, e in enumerate(idx[k]):
                q = [l["q"][0] + t * (l["q"][1] - l["q"][0]) for t in (x[i], x[i + 1])]
                c[1].setdefault(e, []).append(dict(q=q, dir=l["dir"], coords=l["cs"], f=l["f"]))
    ref = Ref(pts, elems, sup)
    out = {}
    for lid, (pl, ll) in cases.items():
        try:
            out[lid] = ref.solve(pl, ll)
        except np.linalg.LinAlgError:
            raise vm.CaseSkip("unstable")
        if not np.isfinite(ref.cond) or ref.cond > 1e9:
            raise vm.CaseSkip("ill conditioned")
    return pts, pid, idx, out


def compare(mon, S, res, lids):
    pts, pid, idx, out = res
    su = max(max(np.max(np.abs(U[:, :2])) for U, _ in out.values()), 1e-9)
    sF = max(max(np.max(np.abs(q[[0, 1, 3, 4]])) for _, Rf in out.values() for q in Rf), 1e-3)
    sM = max(max(np.max(np.abs(q[[2, 5]])) for _, Rf in out.values() for q in Rf), sF)
    for lid in lids:
        U, Rf = out[lid]
        for m, ids in zip(S["mem"], idx):
            o = m["obj"]
            us = np.array([U[pid(n.coord)] for n in o.nodes.values()])
            got = np.array([n.u[lid][:2] for n in o.nodes.values()])
            mon.close("displacements", got, us[:, :2], 0, TOL * su, "member %s case %s" % (o.mem_id, lid))
            for e, el in zip(ids, o.elements.values()):
                q = Rf[e]
                mon.close("axial forces", el.fint[lid]["fx"], [-q[0], q[3]], 0, TOL * sF, "member %s case %s" % (o.mem_id, lid))
                mon.close("shear forces", el.fint[lid]["fz"], [q[1], -q[4]], 0, TOL * sF, "member %s case %s" % (o.mem_id, lid))
                mon.close("moments", el.fint[lid]["my"], [-q[2], q[5]], 0, TOL * sM, "member %s case %s" % (o.mem_id, lid))


# -- design -----------------------------------------------------------------------------------------------------------
def ext(v):
    return max(v, key=abs)


def rounded(m):
    """locations of the sections, rounded to three decimals (either way half-way)"""
    x, k = locs(m), list(m["obj"].member.loc)
    return [float(b) if abs(a - b) <= 5e-4 + 1e-9 else round(a, 3) for a, b in zip(x, k)] if len(k) == len(x) else [round(v, 3) for v in x]


def sections(m, lid):
    """[N, V, M, location] at the nodes: larger of the forces at the two sides"""
    els = list(m["obj"].elements.values())
    x = rounded(m) if m["sec"] is not None else [round(v, 3) for v in locs(m)]
    out = []
    for i in range(len(x)):
        f = []
        for k in ("fx", "fz", "my"):
            v = []
            if i:
                v.append(float(els[i - 1].fint[lid][k][1]))
            if i < len(els):
                v.append(float(els[i].fint[lid][k][0]))
            f.append(ext(v))
        out.append(f + [x[i]])
    return out


def others(S, p, me):
    """members with a node at p"""
    return [m for m in S["mem"] if m is not me and any(math.dist(n.coord, p) < 5e-3 for n in m["obj"].nodes.values())]


def depth(m):
    return float(m["obj"].cross_section.h) if m["sec"] is None else m["sec"].H - burnt(m["sec"])


def width(m):
    if m["sec"] is not None:
        return m["sec"].B - 2 * burnt(m["sec"])
    p = m["prof"]
    return {"HE": lambda: {"HE 160 A": 160.0, "HE 240 B": 240.0}[p], "IP": lambda: 150.0, "RH": lambda: 100.0, "SH": lambda: 120.0, "CH": lambda: 168.3, "WI": lambda: 150.0}[p[:2]]()


def spec(S, m, lid):
    """specification of one timber member as in W02, with the forces of one load case"""
    s = m["sec"]
    o = m["obj"]
    s.L = math.dist(*m["c"])
    s.Sj = [math.inf if k is None else k for k in m["Sj"]]
    ends = [o.nodes[k].coord for k in (list(o.nodes)[0], list(o.nodes)[-1])]
    s.sup = []
    for c in ends:
        k = [q[1] for q in S["sup"] if math.dist(q[0], c) < 5e-3]
        s.sup.append(k[0] if k else None)
    y = {v for v in s.given[0]}
    for n, x in zip(list(o.nodes.values())[1:-1], rounded(m)[1:-1]):
        if others(S, n.coord, m):
            y.add(x)
    s.lat = [sorted(y), sorted(s.given[1])]
    s.forces = [[f[0], f[2], 0.0, 0.0, f[1], 0.0, f[3]] for f in sections(m, lid)]
    n = [f[0] for f in s.forces]
    s.mode = "compression" if min(n) < 0 and max(n) <= 0 else "none" if not any(n) else "mixed"
    s.oh = [[depth(q) for q in others(S, c, m)] for c in ends]
    return s


def contact(S, m, lid, fc90):
    """compression perpendicular to grain: (certain, possible) largest utilization"""
    o, s = m["obj"], m["sec"]
    ns = list(o.nodes.values())
    cn = [(i, n, others(S, n.coord, m)) for i, n in enumerate(ns) if others(S, n.coord, m)]
    res = {False: [0.0], True: [0.0]}
    fam = w02.fam(s.mat)
    for i, n, oth in cn:
        d = [math.dist(n.coord, q.coord) for _, q, _ in cn if q is not n]
        for q in oth:
            k = min(range(len(q["obj"].nodes)), key=lambda j: math.dist(list(q["obj"].nodes.values())[j].coord, n.coord))
            N = sections(q, lid)[k][0]
            if N >= 0:
                continue
            l = depth(q)
            lef = l + min(30.0, l) * (1 if i in (0, len(ns) - 1) else 2)
            sg = -N / (lef * min(width(q), width(m)))
            l1 = min(d, default=math.inf)
            kc = 1.0
            if not (s.mat.name[0] == "D" or fam == "L" or (fam == "G" and l > 400)):
                kc = KC90[fam]
            h2 = 2 * depth(m)
            for opt, far in ((False, l1 >= h2), (True, l1 - 2 * l - 1 >= h2)):
                res[opt].append(sg / ((kc if far else 1.0) * fc90))
    return max(res[False]), max(res[True])


def total(S, m, lid, mon=None):
    """own utilization of the member; None where parts are left out"""
    s = spec(S, m, lid)
    outs, exact = [], True
    for o1 in (s.oh[0] or [None]):
        for o2 in (s.oh[1] or [None]):
            t = Spec()
            t.__dict__.update(s.__dict__)
            t.oh = [o1, o2]
            R = w02.Ref(t)
            u = []
            for i in range(len(t.forces)):
                a, my, _ = R.sig(i)
                u += [a / R.ft if a > 0 else -a / R.fc, R.tau(R.reduced(i)) / R.fv, R.mix(0, my, 0.0)]
                u.append(R.mix(a / R.ft if a > 0 else (a / R.fc) ** 2, my, 0.0))
            if R.f == "L" and t.sc == 1:
                exact = False
            outs.append((t, R, u))
    t, R, _ = outs[0]
    if not covered(t) or (s.kind != "prism" and max(abs(f[1]) for f in s.forces) < 1e3):
        # a tapered member without bending: no section with the largest stress
        return None, None, None
    if all(q[1] > 0.3 for ax in (0, 1) for q in R.slender(ax)):
        bk = R.buckling()
    else:
        bk, exact = [0.0], False
    lt = 0.0
    beam = t.mtype in ("beam", "rigid-beam")
    if beam:
        if t.mode == "mixed" or not w02.lef_ok(t, R):
            exact = False
        else:
            nm = max(abs(q[0]) for q in t.forces)
            if 0 < nm <= 0.2:
                exact = False
            kcz = R.kc(1)
            for k, (a, b) in enumerate(R.segs(1)):
                for i in R.inside(a, b):
                    x = t.forces[i][6]
                    it = m["obj"].member.I_tor(x)
                    v = abs(R.sig(i)[1]) / (R.kcrit(a, b, x, it) * R.fm)
                    if nm > 0.1:
                        v = v ** 2 + abs(R.sig(i)[0]) / (kcz[k] * R.fc)
                    lt = max(lt, v)
    cp = contact(S, m, lid, R.fc90) if beam else (0.0, 0.0)
    cand = {max(u + list(bk) + [lt, c]) for _, _, u in outs for c in cp}
    return sorted(cand), exact, (t, R, cp)


def covered(t):
    """sections in every unsupported length, at different (rounded) locations"""
    loc = [q[6] for q in t.forces]
    return len(set(loc)) == len(loc) and all(any(a <= x <= b for x in loc) for ax in (0, 1) for a, b in zip([0.0] + t.lat[ax], t.lat[ax] + [1.0]))


def design(r, mon, S, lids, last):
    for m in S["mem"]:
        o, s = m["obj"], m["sec"]
        if s is None:
            continue
        if w02.R_bad(s):
            continue
        rs, known = {}, True
        for lid in lids:
            cand, exact, data = total(S, m, lid)
            if cand is None:
                known = False
                mon.ok("utilization", np.isfinite(o.r[lid]) and o.r[lid] >= 0, "%r" % o.r[lid])
                continue
            if exact:
                mon.ok("utilization", any(abs(o.r[lid] - w) <= 2e-6 + 2e-6 * w for w in cand), "member %s %s %s case %s: %.9g, expected %s" % (o.mem_id, s.kind, s.mtype, lid, o.r[lid], cand))
                rs[lid] = cand
            else:
                known = False
                mon.ok("utilization", o.r[lid] >= cand[0] * (1 - 1e-6) or data[0].mode == "x" or (w02.fam(s.mat) == "L" and s.sc == 1), "member %s %s %s case %s: %.9g is less than %s" % (o.mem_id, s.kind, s.mtype, lid, o.r[lid], cand))
        if known and set(o.r) == set(lids) and all(abs(w - 1) > 1e-4 for c in rs.values() for w in c) and all(len({w <= 1 for w in c}) == 1 for c in rs.values()):
            mon.ok("strong enough", o.is_strong_enough == all(c[0] <= 1 for c in rs.values()), "%s with %s" % (o.is_strong_enough, rs))
        # the design member has the forces of the last load case
        k = o.member
        t = spec(S, m, last)
        got = [[k.ned[i], k.vzed[i], k.myed[i], k.loc[i]] for i in range(k.nsect())]
        w = [[f[0], f[4], f[1], f[6]] for f in t.forces]
        mon.ok("section forces", len(got) == len(w), "%d sections, %d nodes" % (len(got), len(w)))
        sc = np.max(np.abs(np.array(w)), axis=0) + 1e-6
        mon.close("section forces", np.array(got) / sc, np.array(w) / sc, 0, 1e-6, "member %s" % o.mem_id)
        mon.ok("lateral supports", sorted(k.lateral_support_y) == t.lat[0] and sorted(k.lateral_support_z) == t.lat[1], "%s %s, expected %s" % (k.lateral_support_y, k.lateral_support_z, t.lat))
        cand, exact, data = total(S, m, last)
        if cand is None:
            continue
        t, R, cp = data
        t.oh = [q[0] if isinstance(q, list) and q else None if isinstance(q, list) else q for q in t.oh]
        w02.q_strength(r, t, k, mon, R)
        mon.close("strength", [k.fc90d, k.E0mean, k.length], [R.fc90, R.d["E0mean"], t.L], 1e-9, 0, "strength, stiffness and length of the design member")
        if all(len(others(S, c, m)) < 2 for c in m["c"]):
            w02.q_sections(r, t, k, mon, R)
        w02.q_stability(r, t, k, mon, R)
        if t.mtype in ("beam", "rigid-beam"):
            u, n = k.check_perpendicular_compression(location=True)
            mon.ok("contact", any(abs(u - w) <= 1e-6 * (1e-3 + w) for w in cp), "%g, expected %s" % (u, cp))
            mon.ok("contact", (n is None) == (u == 0) and (n is None or others(S, n.coord, m) != []), "node %s with utilization %g" % (n, u))


# -- workload ---------------------------------------------------------------------------------------------------------
def volume(s):
    if s.kind in ("curved", "cambered"):
        return s.B * face(s)
    x = sorted({0.0, 1.0, getattr(s, "xap", 0.5)})
    h = [height(s, v) for v in x]
    return s.B * s.L * sum(0.5 * (h[i] + h[i + 1]) * (x[i + 1] - x[i]) for i in range(len(x) - 1))


def edit(r, S, mon):
    m = r.choice([m for m in S["mem"] if m["sec"] is not None])
    s, o = m["sec"], m["obj"]
    what = r.choice(["B", "H", "profile", "section", "material", "Sj", "R", "move", "hinges"])
    if what == "B":
        s.B *= r.uniform(0.8, 1.3)
        o.cross_section.B = s.B
    elif what == "H":
        s.H *= r.uniform(0.85, 1.2)
        if s.kind in ("prism", "mono"):
            if s.kind == "prism":
                o.cross_section.H = s.H
            else:
                o.cross_section.H0 = s.H
        elif s.kind == "ridge":
            s.Hap = s.H * r.uniform(1.05, 1.8)
            o.cross_section.H0, o.cross_section.Hap = s.H, s.Hap
        else:
            o.cross_section.H0 = s.H
    elif what == "profile":
        L = math.dist(*m["c"])
        s.B, s.H = round(r.uniform(80, 250), 1), round(r.uniform(200, 600), 1) if s.kind == "prism" else round(L * r.uniform(0.03, 0.08), 1)
        v = [s.B, s.H]
        if s.kind in ("mono", "ridge"):
            s.Hap = round(s.H * r.uniform(1.05, 2.0), 1)
            v.append(s.Hap)
        elif s.kind == "belly":
            s.alpha = round(r.uniform(1, 5), 2)
            v.append(s.alpha)
        elif s.kind in ("curved", "cambered"):
            s.beta = round(r.uniform(2, 12), 2)
            s.alpha = round(s.beta + r.choice([0, r.uniform(0, 4)]), 2)
            s.r = round(r.uniform(0.2, 0.45) * L / math.sin(math.radians(s.alpha)), 1)
            v += [s.alpha, s.beta, s.r]
        o.profile = "%s %s" % ({"prism": "TS", "mono": "PP", "ridge": "HP", "belly": "MP", "curved": "KP", "cambered": "KHP"}[s.kind], "X".join(map(str, v)))
        mon.note("profile string:" + s.kind)
    elif what == "section":
        q = mksec(r, math.dist(*m["c"]), BEAMS if m["kind"] in ("beam", "rigid-beam") else ["prism", "mono"])
        for k in ("mtype", "ldc", "sc", "varn", "given", "edge", "bf", "kvol"):
            setattr(q, k, getattr(s, k))
        m["sec"] = q
        o.profile = q.obj
    elif what == "material":
        s.mat = r.choice([r.choice(SOLID), r.choice(GLT), r.choice(LVL)])
        o.material = s.mat
    elif what == "Sj":
        if m["kind"] != "beam":
            return None
        i = r.choice([0, 1])
        m["Sj"][i] = r.choice([0.0, 10 ** r.uniform(8, 12), math.inf])
        setattr(o, ("Sj1", "Sj2")[i], m["Sj"][i])
    elif what == "R":
        s.R = r.choice([0, 15, 30, 45])
        o.R = s.R
    elif what == "hinges":
        if any(k["kind"] not in ("beam", "column") for k in S["mem"]):
            return None
        f = o.frame2d
        j = r.random() < 0.5
        f.hinge_joints() if j else f.rigid_joints()
        for k in S["mem"]:
            if k["kind"] == "beam":
                k["Sj"] = [0.0, 0.0] if j else [math.inf, math.inf]
    else:
        # the beam of a portal is raised; nothing is attached inside the moved members
        if S["fam"] != "portal" or any(l["k"] == "p" for l in S["loads"]) or any(q["sec"] is not None and q["sec"].kind not in ("prism", "mono") for q in S["mem"]):
            return None
        y0 = max(p[1] for p in S["mem"][2]["c"])
        y1 = round(y0 * r.uniform(0.8, 1.3), 3)
        for q in S["mem"]:
            q["c"] = [[p[0], y1] if p[1] == y0 else p for p in q["c"]]
        S["mem"][2]["obj"].coordinates = [list(p) for p in S["mem"][2]["c"]]
    return what


def w_frame(r, mon):
    S = topology(r)
    mon.case(dict(fam=S["fam"], mem=[dict(c=m["c"], kind=m["kind"], n=m["n"], Sj=m["Sj"], prof=m["prof"], sec=None if m["sec"] is None else {k: str(v) for k, v in m["sec"].__dict__.items() if k not in ("obj", "fp")}) for m in S["mem"]],
                  sup=S["sup"], loads=[{k: (S["mem"].index(v) if k == "m" else v) for k, v in l.items()} for l in S["loads"]], sw=S["sw"]))
    if crowded(S):
        raise vm.CaseSkip("points very close to each other")
    f = build(r, S)
    swq = []
    if S["sw"] and all(m["sec"] is None or m["sec"].kind in ("prism", "mono") for m in S["mem"]):
        f.generate(self_weight=True)
        for m in S["mem"]:
            s = m["sec"]
            if s is None:
                q = [-10 * 7850e-9 * float(m["obj"].cross_section.A)] * 2
            else:
                q = [-10 * w02.raw(s.mat)["rhomean"] * 1e-9 * s.B * height(s, x) for x in (0, 1)]
            swq.append((m, q))
        mon.note("self weight")
    else:
        f.generate()
    for m in S["mem"]:
        c = [list(map(float, n.coord)) for n in m["obj"].nodes.values()]
        mon.ok("mesh", np.allclose(c[0], m["c"][0], atol=2e-3) and np.allclose(c[-1], m["c"][1], atol=2e-3) and len(c) >= m["n"] + 1 and len(m["obj"].elements) == len(c) - 1, "nodes %s" % c)
        for p in [q for k in S["mem"] if k is not m for q in k["c"]] + [q[0] for q in S["sup"]] + [l["c"] for l in S["loads"] if l["k"] == "p"]:
            a, b = np.array(m["c"][0]), np.array(m["c"][1])
            d = (b - a) / np.linalg.norm(b - a)
            v = np.array(p) - a
            if -1e-3 <= v @ d <= np.linalg.norm(b - a) + 1e-3 and abs(d[0] * v[1] - d[1] * v[0]) < 1e-3:
                mon.ok("mesh", min(math.dist(p, q) for q in c) < 3e-3, "no node at %s on member %s" % (p, m["c"]))
    hist = []
    for step in range(r.choice([1, 2, 2, 3])):
        if step:
            e = edit(r, S, mon)
            if e is None:
                continue
            hist.append(e)
            mon.note("edit:" + e)
        if any(m["sec"] is not None and w02.R_bad(m["sec"]) for m in S["mem"]):
            break
        res = reference(S, swq)
        lids = list(res[3])
        mon.ok("loads", set(f.load_cases) == set(lids), "%s %s" % (f.load_cases, lids))
        if len(lids) > 1 and r.random() < 0.5:
            order = r.sample(lids, len(lids))
            for l in order:
                f.calculate(l)
        else:
            f.calculate("all")
            order = list(f.load_cases)
        compare(mon, S, res, lids)
        if swq:
            # the end forces of the elements carry all line loads of the case of the self weight
            tot = sum(0.5 * (q[0] + q[1]) * math.dist(*m["c"]) for m, q in swq)
            line = sum(l["f"] * 0.5 * sum(l["q"]) * math.dist(*l["m"]["c"]) for l in S["loads"] if l["id"] == FD.LoadIDs.ULS and l["k"] == "l" and l["dir"] == "y")
            V = 0.0
            for m in S["mem"]:
                for el, (n1, n2) in zip(m["obj"].elements.values(), zip(list(m["obj"].nodes.values())[:-1], list(m["obj"].nodes.values())[1:])):
                    d = (np.array(n2.coord) - np.array(n1.coord)) / math.dist(n1.coord, n2.coord)
                    g = el.fint[FD.LoadIDs.ULS]
                    V += d[1] * (g["fx"][1] - g["fx"][0]) + d[0] * (g["fz"][0] - g["fz"][1])
            sc = max(abs(tot), abs(line), max(abs(v) for m in S["mem"] for el in m["obj"].elements.values() for k in ("fx", "fz") for v in el.fint[FD.LoadIDs.ULS][k]))
            mon.close("self weight", -V - line, tot, 0, 1e-4 * sc, "sum of the line loads in the members without the given loads")
        design(r, mon, S, lids, order[-1])
        for m in S["mem"]:
            if m["sec"] is not None and not m["sec"].R:
                m["sec"].L = math.dist(*m["c"])
                mon.close("weight", float(m["obj"].weight), volume(m["sec"]) * w02.raw(m["sec"].mat)["rhomean"] * 1e-9, 1e-6, 0, "weight of a %s" % m["sec"].kind)
        mon.close("weight", float(f.weight), sum(float(m["obj"].weight) for m in S["mem"]), 1e-9, 0, "weight of the frame")
    mon.note("family:" + S["fam"])
    for m in S["mem"]:
        if m["sec"] is not None:
            mon.note("section:" + m["sec"].kind)
    mon.nontrivial((S["fam"], tuple(sorted(m["sec"].kind if m["sec"] is not None else "steel" for m in S["mem"])), tuple(sorted(w02.fam(m["sec"].mat) for m in S["mem"] if m["sec"] is not None)), tuple(hist)))


WORKLOADS = {"frame": (w_frame, 500, 8000)}
ASSUMPTIONS = ["The stiffness of an element of a tapered member is that of the section at its middle.", "Lateral buckling with tensile axial force in parts of the member, and relative slenderness below 0.3, are compared from below only."]

if __name__ == "__main__":
    vm.main(globals())
