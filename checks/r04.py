"""R04: Frame2D - the frame given by the user (members, joints, supports, loads) is the frame that is analysed and designed."""
import os, sys, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vm
sys.path.insert(0, vm.VERIF)
import numpy as np
import matplotlib
matplotlib.use("Agg")
import metku.eurocodes.en1993
import metku.frame2d.frame2d as FD
from metku.structures.steel.steel_member import SteelMember
from metku.sections.steel.catalogue import ipe_profiles, h_profiles, rhs_profiles, shs_profiles, chs_profiles
from ref.frames import Frame2D as Ref

PROPERTY = "R04"
RULE = ("random plane frames given through Frame2D (storey frames generated from storeys/bays/heights/bays, pitched portals, continuous beams, crossing and lattice members, X-braces of bars, "
        "secondary beams ending inside rafters), random steel profiles and element numbers, semi-rigid and hinged ends, supports and point loads anywhere on the members, uniform "
        "and linearly varying line loads with scaling factors in 1-3 load cases, self weight, in any order of adding; analysed and re-analysed after changing profiles, joint "
        "stiffnesses and coordinates; compared with an independent frame solver built from the input. Non-trivial: distinct (family, size, loads, ends, edits).")
MONITORS = ["mesh", "displacements", "axial forces", "shear forces", "moments", "extremes", "max displacements", "drawings", "utilization", "strong enough", "weight", "simple frame", "first profile passes",
            "earlier profiles fail"]
IDS = [FD.LoadIDs.ULS, FD.LoadIDs.SLS_Frequent, 2, 5, "wind"]
PROF = ["IPE 200", "IPE 300", "IPE 450", "HE 160 A", "HE 240 A", "HE 200 B", "HE 120 M", "RHS 150X100X6", "SHS 120X120X5", "SHS 160X8", "CHS 168.3X6.3", "WI 500-8-12X200-12X200"]
TOL = 5e-4


def R3(p):
    return [round(float(c), 3) for c in p]


class Spec:
    def __init__(s):
        s.mem = []        # dict(c=[[x,y],[x,y]], prof, kind, n, Sj, hinge)
        s.sup = []        # (coordinate, dofs)
        s.loads = []
        s.fam = ""
        s.pts = []        # further points where the members have to be connected


SUP = {"fix": (FD.FixedSupport, [0, 1, 2]), "pin": (FD.XYHingedSupport, [0, 1]), "roll": (FD.YHingedSupport, [1]), "rollx": (FD.XHingedSupport, [0])}


def member(r, S, a, b, kind=None, n=None, prof=None):
    kind = kind or r.choice(["beam", "frame", "column"])
    m = dict(c=[R3(a), R3(b)], prof=prof or r.choice(PROF), kind=kind, n=n or r.choice([1, 2, 4, 5, 6, 7]), Sj=[None, None], hinge=[0, 0], obj=None, ltb=False)
    if m["prof"][:3] != "CHS" and m["kind"] != "bar" and r.random() < 0.15:
        m["ltb"] = True
    S.mem.append(m)
    return m


def at(m, t):
    a, b = np.array(m["c"][0]), np.array(m["c"][1])
    return a + t*(b-a)


def topology(r):
    S = Spec()
    U = r.uniform
    S.fam = r.choice(["portal", "portal", "beam", "cross", "tee", "brace", "pitched", "lattice"])
    H, L = r.choice([3000, 4500, U(2500, 8000)]), r.choice([6000, 9000, U(4000, 16000)])
    mt = lambda: r.choice(["beam", "beam", "frame", "rigid"])
    H2 = H + (r.choice([0, U(300, 2000)]) if S.fam == "tee" else 0)
    if S.fam == "beam":
        sl = r.choice([0, 0, U(-0.3, 0.5)])
        m = member(r, S, (0, 0), (L, sl*L), kind=mt(), n=r.choice([1, 3, 4, 6, 7]))
        S.sup.append(((0, 0), r.choice(["fix", "pin"])))
        S.sup.append((R3(at(m, 1)), r.choice(["roll", "pin"])))
        for _ in range(r.choice([0, 1, 2])):
            S.sup.append((list(map(float, at(m, U(0.15, 0.85)))), "roll"))
    else:
        k1, k2 = r.choice(["fix", "pin"]), r.choice(["fix", "fix", "pin"])
        c1 = member(r, S, (0, 0), (0, H), kind=r.choice(["column", "frame"]))
        c2 = member(r, S, *r.choice([((L, 0), (L, H2)), ((L, H2), (L, 0))]), kind=r.choice(["column", "frame"]))
        S.sup += [((0, 0), k1), (R3((L, 0)), k2)]
        if S.fam == "pitched":
            rise = U(0.05, 0.3)*L
            x = r.choice([0.5, U(0.3, 0.7)])*L
            member(r, S, (0, H), (x, H+rise), kind=mt())
            member(r, S, *r.choice([((x, H+rise), (L, H)), ((L, H), (x, H+rise))]), kind=mt())
        else:
            member(r, S, (0, H), (L, H2), kind=mt())
        b = S.mem[2]
        if S.fam == "cross":
            y = U(0.3, 0.7)*H
            member(r, S, (0, y), (L, y*U(0.9, 1.1)), kind=mt())
            member(r, S, (U(0.2, 0.4)*L, H), (U(0.6, 0.8)*L, 0.1*H), kind="frame")
        elif S.fam == "lattice":
            # continuous members that cross each other and the frame
            member(r, S, (0, 0), (L, H2), kind="frame")
            if r.random() < 0.8:
                member(r, S, (0, H), (L, 0), kind=mt())
            if r.random() < 0.4:
                member(r, S, (0, U(0.1, 0.9)*H), (U(0.3, 0.9)*L, H), kind=mt())
            if r.random() < 0.4:
                x = U(0.2, 0.8)*L
                member(r, S, (x, 0.0), (x, H), kind="frame")
        elif S.fam == "tee":
            # a member that starts inside the beam, and a beam carried by the column
            p = R3(at(b, U(0.2, 0.8)))
            member(r, S, p, (p[0]+U(-500, 500), p[1]+U(600, 2500)), kind="frame")
            p = R3(at(c1, U(0.3, 0.8)))
            member(r, S, p, (p[0]-U(500, 2500), p[1]+U(-200, 600)), kind=mt())
        elif S.fam == "brace":
            member(r, S, (0, 0), (L, H), kind="bar", prof="SHS 100X5")
            if r.random() < 0.7:
                member(r, S, (0, H), (L, 0), kind="bar", prof="CHS 88.9X5")
    if r.random() < 0.5:
        for m in S.mem:
            if r.random() < 0.4:
                m["c"] = m["c"][::-1]
    # joints
    for m in S.mem:
        if m["kind"] in ("beam",):
            for i in (0, 1):
                if r.random() < 0.45:
                    m["Sj"][i] = r.choice([0.0, 10**U(8, 12), 10**U(8, 12), math.inf, 1e25])
        elif m["kind"] == "rigid" and S.fam in ("portal", "pitched") and r.random() < 0.25:
            m["hinge"][r.choice([0, 1])] = 1
    for lid in r.sample(IDS, r.choice([1, 1, 2, 3])):
        for _ in range(r.randint(1, 4)):
            m = r.choice([m for m in S.mem if m["kind"] != "bar"])
            if r.random() < 0.55:
                q = U(-40, 40)
                S.loads.append(dict(k="l", m=m, q=[q, r.choice([q, U(-40, 40), 0.0])], dir=r.choice("xyyy"), cs=r.choice(["global", "global", "local"]),
                                    f=r.choice([1.0, 1.0, 1.35, 1.5, U(-1, 3)]), id=lid))
            else:
                t = r.choice([0, 1, 0.5, U(0.05, 0.95), U(0.05, 0.95), 1/3])
                S.loads.append(dict(k="p", c=list(map(float, at(m, t))), v=[r.choice([0, U(-5e4, 5e4)]), U(-8e4, 8e4), r.choice([0, 0, U(-5e7, 5e7)])],
                                    f=r.choice([1.0, 1.0, 1.15, U(-1, 2)]), id=lid))
    return S


def make_member(m, r):
    c = [list(p) for p in m["c"]]
    kw = {}
    pre = r.random() < 0.5
    lt = dict(LT_buckling=True) if m["ltb"] else {}
    if pre:
        for i, k in enumerate(("Sj1", "Sj2")):
            if m["Sj"][i] is not None:
                kw[k] = m["Sj"][i]
    if m["kind"] == "beam":
        o = FD.SteelBeam(c, profile=m["prof"], num_elements=m["n"], **kw, **lt)
        if o.mtype != "beam":       # steep members are columns
            m["Sj"] = [None, None]
    elif m["kind"] == "column":
        o = FD.SteelColumn(c, profile=m["prof"], num_elements=m["n"], **lt)
    elif m["kind"] == "bar":
        o = FD.FrameMember(c, profile=m["prof"], mtype=r.choice(["bar", "brace"]), **({} if r.random() < 0.7 else dict(num_elements=1)))
    else:
        o = FD.SteelFrameMember(c, profile=m["prof"], num_elements=m["n"], mtype="rigid-beam" if m["kind"] == "rigid" else "", **lt)
    if not pre and o.mtype == "beam":
        for i, k in enumerate(("Sj1", "Sj2")):
            if m["Sj"][i] is not None:
                setattr(o, k, m["Sj"][i])
    for i in (0, 1):
        if m["hinge"][i]:
            o.add_hinge(i)
    m["obj"] = o
    return o


def build(r, S):
    f = FD.Frame2D()
    acts = [("m", m) for m in S.mem]
    r.shuffle(acts)
    tail = [("s", s) for s in S.sup] + [("p", l) for l in S.loads if l["k"] == "p"]
    if r.random() < 0.5:
        r.shuffle(tail)
        acts = acts + tail
    else:
        acts = acts + tail
        r.shuffle(acts)
    S.simple = None
    hs = []
    for k, x in acts:
        if k == "m":
            f.add(make_member(x, r))
        elif k == "s":
            f.add(SUP[x[1]][0](list(x[0]) if r.random() < 0.7 else tuple(x[0])))
        else:
            kw = {} if r.random() < 0.7 else dict(name=r.choice(["P", "PointLoad1", "PointLoad2"]))
            f.add(FD.PointLoad(list(x["c"]) if r.random() < 0.7 else tuple(x["c"]), list(x["v"]), load_id=x["id"], f=x["f"], **kw))
    for x in S.loads:
        if x["k"] == "l":
            kw = {} if r.random() < 0.7 else dict(name=r.choice(["q", "LineLoad1", "LineLoad2"]))
            f.add(FD.LineLoad(x["m"]["obj"], list(x["q"]), x["dir"], load_id=x["id"], f=x["f"], coord_sys=x["cs"], **kw))
    return f


def on(m, p, tol=2e-3):
    a, b = np.array(m["c"][0]), np.array(m["c"][1])
    L = np.linalg.norm(b-a)
    t = (np.array(p[:2])-a) @ (b-a)/L
    return -tol <= t <= L+tol and abs(((b-a)[0]*(p[1]-a[1])-(b-a)[1]*(p[0]-a[0]))/L) < tol


def reference(S, sw=False):
    """reference model: the positions of the nodes along the members are those
    of the analysed frame, connectivity, ends, supports and loads those of the input"""
    pts = []

    def pid(p):
        for i, q in enumerate(pts):
            if abs(q[0]-p[0]) < 5e-3 and abs(q[1]-p[1]) < 5e-3:
                return i
        pts.append([float(p[0]), float(p[1])])
        return len(pts)-1
    elems, idx = [], []
    for m in S.mem:
        o = m["obj"]
        ns = list(o.nodes.values())
        sec = o.cross_section
        ids = []
        if m["kind"] == "bar":
            elems.append(dict(n=(pid(m["c"][0]), pid(m["c"][1])), E=210e3, A=float(sec.A), I=1.0, kind="rod"))
            idx.append([len(elems)-1])
            continue
        for a, b in zip(ns[:-1], ns[1:]):
            ids.append(len(elems))
            elems.append(dict(n=(pid(a.coord), pid(b.coord)), E=210e3, A=float(sec.A), I=float(sec.I[0]), kind="beam", rel=[], spr={}))
        if o.mtype == "beam":
            for e, d, k in ((ids[0], 2, m["Sj"][0]), (ids[-1], 5, m["Sj"][1])):
                if k is not None and k < 1e20:
                    if k <= 1e-4:
                        elems[e]["rel"].append(d)
                    else:
                        elems[e]["spr"][d] = k
        for e, d, h in ((ids[0], 2, m["hinge"][0]), (ids[-1], 5, m["hinge"][1])):
            if h:
                elems[e]["rel"].append(d)
        idx.append(ids)
    sup = [(pid(c), SUP[k][1]) for c, k in S.sup]
    n0 = len(pts)
    cases = {}
    for l in S.loads:
        c = cases.setdefault(l["id"], ([], {}))
        if l["k"] == "p":
            c[0].append((pid(l["c"]), [l["f"]*v for v in l["v"]]))
        else:
            k = [i for i, m in enumerate(S.mem) if m is l["m"]][0]
            a = np.array(l["m"]["c"][0])
            L = np.linalg.norm(np.array(l["m"]["c"][1])-a)
            for e in idx[k]:
                t = [np.linalg.norm(np.array(pts[i])-a)/L for i in elems[e]["n"]]
                q = [l["q"][0]+x*(l["q"][1]-l["q"][0]) for x in t]
                c[1].setdefault(e, []).append(dict(q=q, dir=l["dir"], coords=l["cs"], f=l["f"]))
    if sw:
        c = cases.setdefault(FD.LoadIDs.ULS, ([], {}))
        for k, m in enumerate(S.mem):
            if m["kind"] != "bar":
                q = -10*7850e-9*float(m["obj"].cross_section.A)
                for e in idx[k]:
                    c[1].setdefault(e, []).append(dict(q=[q, q], dir="y", coords="global", f=1.0))
    ref = Ref(pts, elems, sup)
    out = {}
    for lid, (pl, ll) in cases.items():
        try:
            U, Rf = ref.solve(pl, ll)
        except np.linalg.LinAlgError:
            raise vm.CaseSkip("unstable")
        if not np.isfinite(ref.cond) or ref.cond > 1e8:
            raise vm.CaseSkip("ill conditioned")
        out[lid] = (U, Rf)
    return pts, pid, elems, idx, out, n0


def required(S):
    """points where every member passing through has to have a node"""
    P = [p for m in S.mem for p in m["c"] if m["kind"] != "bar"] + [s[0] for s in S.sup] + [l["c"] for l in S.loads if l["k"] == "p"]
    ms = [m for m in S.mem if m["kind"] != "bar"]
    for i, a in enumerate(ms):
        for b in ms[:i]:
            A, B, C, D = [np.array(p) for p in a["c"]+b["c"]]
            M = np.array([B-A, C-D]).T
            if abs(np.linalg.det(M)) < 1e-6:
                continue
            s, t = np.linalg.solve(M, C-A)
            if -1e-9 <= s <= 1+1e-9 and -1e-9 <= t <= 1+1e-9:
                P.append(list(A+s*(B-A)))
    return P


def ext(vals):
    return vals[int(np.argmax(np.abs(vals)))]


def compare(mon, S, f, res, lids, tag=""):
    pts, pid, elems, idx, out, n0 = res
    su = max(max(np.max(np.abs(U[:, :2])) for U, _ in out.values()), 1e-9)
    sF = max(max(np.max(np.abs(q[[0, 1, 3, 4]])) for _, Rf in out.values() for q in Rf), 1e-3)
    Lc = np.max(np.ptp(np.array(pts), axis=0))
    sM = max(max(np.max(np.abs(q[[2, 5]])) for _, Rf in out.values() for q in Rf), sF)
    for lid in lids:
        U, Rf = out[lid]
        for m, ids in zip(S.mem, idx):
            o = m["obj"]
            els = list(o.elements.values())
            us = np.array([U[pid(n.coord)] for n in o.nodes.values()])
            got = np.array([n.u[lid][:2] for n in o.nodes.values()])
            mon.close(tag+"displacements", got, us[:, :2], 0, TOL*su, "member %s case %s" % (o.mem_id, lid))
            got = np.array([o.nodal_displacements[lid][k][:2] for k in o.nodes])
            mon.close(tag+"displacements", got, us[:, :2], 0, TOL*su, "nodal_displacements of member %s case %s" % (o.mem_id, lid))
            mon.close(tag+"max displacements", [abs(o.dx[lid]), abs(o.dy[lid])], np.max(np.abs(us[:, :2]), axis=0), 0, TOL*su, "member %s case %s" % (o.mem_id, lid))
            for k, v in ((o.dx[lid], us[:, 0]), (o.dy[lid], us[:, 1])):
                mon.ok(tag+"max displacements", np.min(np.abs(v-k)) <= TOL*su, "%s is not a displacement of the member" % k)
            N, V, M = [], [], []
            for e, el in zip(ids, els):
                q = Rf[e]
                N += [-q[0], q[3]]
                V += [q[1], -q[4]]
                M += [-q[2], q[5]]
                mon.close(tag+"axial forces", el.fint[lid]["fx"], N[-2:], 0, TOL*sF, "member %s case %s" % (o.mem_id, lid))
                if m["kind"] != "bar":
                    mon.close(tag+"shear forces", el.fint[lid]["fz"], V[-2:], 0, TOL*sF, "member %s case %s" % (o.mem_id, lid))
                    mon.close(tag+"moments", el.fint[lid]["my"], M[-2:], 0, TOL*sM, "member %s case %s" % (o.mem_id, lid))
            if m["kind"] == "bar":
                continue
            for nm, got, vals, sc in (("NEd", o.NEd[lid], N, sF), ("VEd", o.VEd[lid], V, sF), ("MEd", o.MEd[lid], M, sM)):
                mon.close(tag+"extremes", abs(got), np.max(np.abs(vals)), 0, TOL*sc, nm)
                mon.ok(tag+"extremes", np.min(np.abs(np.array(vals)-got)) <= TOL*sc, nm+" is not a force of the member")
            o.calc_nodal_forces(lid)
            for k, (nm, got, vals, sc) in enumerate((("ned", o.ned, N, sF), ("ved", o.ved, V, sF), ("med", o.med, M, sM))):
                mon.close(tag+"extremes", abs(got), np.max(np.abs(vals)), 0, TOL*sc, nm)
                mon.ok(tag+"extremes", np.min(np.abs(np.array(vals)-got)) <= TOL*sc, nm+" is not a force of the member")
                # at a node: the larger of the forces at the ends of the element that starts (at the last node: ends) there
                w = [max(vals[2*i], vals[2*i+1], key=abs) for i in range(len(ids))]
                got = [o.nodal_forces[lid][key][k] for key in o.nodes]
                mon.close(tag+"extremes", np.abs(got), np.abs(w+w[-1:]), 0, TOL*sc, "nodal_forces of member %s case %s, component %d" % (o.mem_id, lid, k))
    return sF, sM


def own_design(m, fint, locs):
    """utilization from the forces at every section of the member"""
    o = m["obj"]
    sm = SteelMember(o.cross_section, float(o.length), Lcr=[1.0, 1.0], mtype=o.mtype, LT_buckling=m.get("ltb", False))
    fx, fz, my = fint
    for i, x in enumerate(locs):
        a = [v for v in ((2*i-1), 2*i) if 0 <= v < len(fx)]
        sm.add_section(ned=ext([fx[k] for k in a]), vzed=ext([fz[k] for k in a]), myed=ext([my[k] for k in a]), loc=x)
    return sm.design()


def forces(o, lid):
    out = []
    for k in ("fx", "fz", "my"):
        out.append([v for el in o.elements.values() for v in el.fint[lid][k]])
    return out


def locs(o):
    a = np.array(o.coordinates[0])
    return [round(float(np.linalg.norm(np.array(n.coord)-a)/o.length), 3) for n in o.nodes.values()]


def design(mon, S, f, lids, tag=""):
    for m in S.mem:
        o = m["obj"]
        if m["kind"] == "bar":
            continue
        w = {}
        for lid in lids:
            w[lid] = own_design(m, forces(o, lid), locs(o))
            mon.close(tag+"utilization", o.r[lid], w[lid], 2e-3, 1e-6, "member %s %s case %s" % (o.mem_id, m["prof"], lid))
        if all(abs(v-1) > 0.01 for v in w.values()) and set(o.r) == set(w):
            mon.ok(tag+"strong enough", o.is_strong_enough == all(v <= 1 for v in w.values()), "%s with %s" % (o.is_strong_enough, w))


def run(f, r, lids):
    meth = r.choice([{}, dict(support_method="REM"), dict(support_method="ZERO")])
    mode = r.choice(["all", "single", "first"] if len(lids) == 1 else ["all", "ALL", "single"])
    if mode == "first":
        f.calculate(**meth)
    elif mode == "single":
        for l in r.sample(lids, len(lids)):
            f.calculate(l, **meth)
    else:
        f.calculate(mode, **meth)


def plots(mon, S, f, lid):
    """the diagrams show the members and their moments"""
    import matplotlib.pyplot as plt
    plt.close("all")
    k = 3.0
    f.bmd(k, show=False, loads=False, load_id=lid)
    ax = plt.gca()
    lines = [np.array(ln.get_xydata()) for ln in ax.lines]
    for m in S.mem:
        c = np.array([list(map(float, p)) for p in m["obj"].coordinates])
        mon.ok("drawings", any(len(ln) == 2 and np.allclose(ln, c, atol=1e-6) for ln in lines), "member %s is not drawn" % c)
        a, b = c
        t = (b-a)/np.linalg.norm(b-a)
        hit = False
        M = [v*1e-6*k for el in m["obj"].elements.values() for v in el.fint[lid]["my"]]
        for ln in lines:
            if len(ln) == len(m["obj"].elements)+3 and np.allclose(ln[0], a, atol=1e-6) and np.allclose(ln[-1], b, atol=1e-6):
                off = np.abs((ln[1:-1]-a) @ np.array([-t[1], t[0]]))
                want = np.abs(M[0::2]+M[-1:])
                hit = hit or np.allclose(off, want, rtol=1e-4, atol=5e-3+1e-4*max(want))
        mon.ok("drawings", hit, "no moment diagram for member %s" % c)
    plt.close("all")
    f.plot_normal_force(load_id=lid, show=False)
    plt.close("all")
    f.plot_deflection(scale=10, show=False, load_id=lid)
    lines = [np.array(ln.get_xydata()) for ln in plt.gca().lines]
    for m in S.mem:
        d = np.array([np.array(n.coord)+10*np.array(n.u[lid][:2], float) for n in m["obj"].nodes.values()])
        mon.ok("drawings", any(ln.shape == d.shape and np.allclose(ln, d, rtol=1e-6, atol=1e-6) for ln in lines), "deflected shape of %s" % m["c"])
    plt.close("all")


def w_frame(r, mon):
    S = topology(r)
    mon.case(dict(fam=S.fam, mem=[{k: v for k, v in m.items() if k != "obj"} for m in S.mem], sup=S.sup,
                  loads=[{k: (S.mem.index(v) if k == "m" else v) for k, v in l.items()} for l in S.loads]))
    f = build(r, S)
    sw = r.random() < 0.2 and not any(m["kind"] == "bar" for m in S.mem)
    f.generate(**(dict(self_weight=True) if sw else {}))
    P = required(S)
    for m in S.mem:
        c = [list(map(float, n.coord)) for n in m["obj"].nodes.values()]
        if m["kind"] == "bar":
            mon.ok("mesh", len(c) == 2 and np.allclose(c, m["c"], atol=2e-3), "bar nodes %s, ends %s" % (c, m["c"]))
            continue
        for p in P:
            if on(m, p):
                mon.ok("mesh", min(abs(q[0]-p[0])+abs(q[1]-p[1]) for q in c) < 3e-3, "no node at %s on member %s" % (p, m["c"]))
        mon.ok("mesh", np.allclose(c[0], m["c"][0], atol=2e-3) and np.allclose(c[-1], m["c"][1], atol=2e-3), "ends %s of %s" % ([c[0], c[-1]], m["c"]))
        mon.ok("mesh", len(c) >= m["n"]+1 and len(m["obj"].elements) == len(c)-1 and all(on(m, q, 5e-3) for q in c), "%d nodes for %d elements" % (len(c), m["n"]))
    res = reference(S, sw)
    lids = list(res[4])
    mon.ok("loads", set(f.load_cases) == set(lids), "%s %s" % (f.load_cases, lids))
    hist = []
    for step in range(r.choice([1, 1, 2, 3])):
        if step:
            what = r.choice(["profile", "profile", "Sj", "move", "add"])
            m = r.choice([m for m in S.mem if m["kind"] != "bar"])
            o = m["obj"]
            if what == "profile":
                if sw:
                    break
                m["prof"] = r.choice([p for p in PROF if p[:3] != "CHS" or not m["ltb"]])
                o.profile = m["prof"]
            elif what == "Sj":
                if o.mtype != "beam":
                    continue
                i = r.choice([0, 1])
                m["Sj"][i] = r.choice([0.0, 10**r.uniform(8, 12), math.inf])
                setattr(o, ("Sj1", "Sj2")[i], m["Sj"][i])
            elif what == "move":
                # only where nothing is attached inside the moved members
                if S.fam not in ("portal", "pitched", "brace") or any(l["k"] == "p" for l in S.loads):
                    continue
                m = S.mem[2]
                old = list(m["c"][1])
                if S.fam == "pitched":
                    new = R3((old[0]+r.uniform(-300, 300), old[1]+r.uniform(-300, 600)))
                else:
                    new = R3((old[0], old[1]+r.uniform(-300, 600)))
                for k in S.mem:
                    k["c"] = [new if p == old else p for p in k["c"]]
                if r.random() < 0.5:
                    m["obj"].coordinates = [list(m["c"][0]), list(new)]
                else:
                    m["obj"].n2.coord = np.array(new)
                    f.update_model()
            else:
                if any(k["obj"].mtype not in ("beam", "column") for k in S.mem):
                    continue
                f.hinge_joints() if r.random() < 0.5 else f.rigid_joints()
                v = None
                for k in S.mem:
                    if k["obj"].mtype == "beam":
                        v = k["obj"].Sj1
                        k["Sj"] = [0.0, 0.0] if v < 1 else [math.inf, math.inf]
            hist.append(what)
            mon.note("edit:"+what)
            res = reference(S, sw)
        run(f, r, lids)
        compare(mon, S, f, res, lids, "" if not step else "after edit: ")
        design(mon, S, f, lids, "" if not step else "after edit: ")
        W = sum(float(m["obj"].cross_section.A)*np.linalg.norm(np.array(m["c"][1])-np.array(m["c"][0]))*7850e-9 for m in S.mem)
        mon.close("weight", f.weight, W, 1e-6, 0)
    xs = np.array([p for m in S.mem for p in m["c"]])
    mon.close("extent", [f.L, f.H], np.ptp(xs, axis=0), 1e-6, 2e-3)
    if r.random() < 0.08:
        plots(mon, S, f, r.choice(lids))
    mon.note("family:"+S.fam)
    mon.nontrivial((S.fam, len(S.mem), len(S.loads), tuple(hist), sw, tuple(tuple(m["Sj"]) for m in S.mem if m["kind"] == "beam")))


def w_simple(r, mon):
    """frames generated from (storeys, bays, storey height, bay length)"""
    ns, nb = r.choice([1, 2, 3, 4, 5, 6]), r.randint(1, 3)
    if ns > 4:
        nb = 1
    h, L = r.choice([3000, 3300, 3.3e3+0.1, r.uniform(2500, 5000)]), r.choice([5000, 7200, r.uniform(3000, 9000)])
    if r.random() < 0.5:
        h, L = round(h, 3), round(L, 3)
    st = r.choice(["fixed", "XYHINGED", "FIXED"])
    beams = r.random() < 0.85
    ne = r.choice([1, 2, 4, 5])
    mon.case(dict(ns=ns, nb=nb, h=h, L=L, sup=st, beams=beams, ne=ne))
    f = FD.Frame2D(simple=[ns, nb, h, L], num_elements=ne, supports=st, create_beams=beams)
    S = Spec()
    S.fam = "simple"
    cols = {(i, k) for i in range(nb+1) for k in range(ns)}
    bms = {(i, k) for i in range(nb) for k in range(ns)} if beams else set()
    for o in f.members.values():
        a, b = np.array(o.coordinates[0]), np.array(o.coordinates[1])
        i, k = int(round(a[0]/L)), a[1]/h
        if abs(b[0]-a[0]) < 1e-6:
            key = (i, int(round(k)))
            mon.ok("simple frame", key in cols and o.mtype == "column" and abs(b[1]-a[1]-h) < 2e-3 and abs(a[0]-i*L) < 2e-3 and abs(a[1]-key[1]*h) < 3e-3, "column %s" % o.coordinates)
            cols.discard(key)
        else:
            key = (i, int(round(k))-1)
            mon.ok("simple frame", key in bms and o.mtype == "beam" and abs(b[0]-a[0]-L) < 2e-3 and abs(a[1]-b[1]) < 1e-9 and abs(a[1]-(key[1]+1)*h) < 3e-3, "beam %s" % o.coordinates)
            bms.discard(key)
        S.mem.append(dict(c=[R3(a), R3(b)], prof=None, kind=o.mtype, n=ne, Sj=[None, None], hinge=[0, 0], obj=o))
    mon.ok("simple frame", not cols and not bms, "missing columns %s beams %s" % (cols, bms))
    mon.ok("simple frame", len(f.supports) == nb+1 and all(abs(s.coordinate[1]) == 0 and s.dofs == ([0, 1, 2] if st.lower() == "fixed" else [0, 1]) for s in f.supports.values()), "supports")
    mon.ok("simple frame", len(f.beams) == (nb*ns if beams else 0) and len(f.columns) == (nb+1)*ns, "%d beams %d columns" % (len(f.beams), len(f.columns)))
    S.sup = [(R3((i*L, 0)), "fix" if st.lower() == "fixed" else "pin") for i in range(nb+1)]
    for m in S.mem:
        m["prof"] = r.choice(PROF)
        m["ltb"] = False
        m["obj"].profile = m["prof"]
        if m["kind"] == "beam" and r.random() < 0.3:
            m["Sj"] = [r.choice([None, 10**r.uniform(9, 12)]), r.choice([None, 10**r.uniform(9, 12)])]
            for i, k in enumerate(("Sj1", "Sj2")):
                if m["Sj"][i] is not None:
                    setattr(m["obj"], k, m["Sj"][i])
    for lid in r.sample(IDS, r.choice([1, 2])):
        for m in S.mem:
            if r.random() < 0.5:
                q = r.uniform(-30, 10)
                S.loads.append(dict(k="l", m=m, q=[q, r.choice([q, 0.0])], dir="y" if m["kind"] == "beam" else "x", cs="global", f=r.choice([1.0, 1.5]), id=lid))
                f.add(FD.LineLoad(m["obj"], list(S.loads[-1]["q"]), S.loads[-1]["dir"], load_id=lid, f=S.loads[-1]["f"]))
        p = R3((0, ns*h))
        l = dict(k="p", c=S.mem[ns-1]["c"][1], v=[r.uniform(1e3, 3e4), 0, 0], f=1.0, id=lid)
        S.loads.append(l)
        f.add(FD.PointLoad(list(l["c"]), l["v"], load_id=lid))
    # corners given by accumulated heights can differ by the rounding
    f.generate()
    res = reference(S)
    lids = list(res[4])
    run(f, r, lids)
    compare(mon, S, f, res, lids)
    design(mon, S, f, lids)
    mon.nontrivial((ns, nb, h, L, st, beams, ne))


CAT = {"IPE": (list(ipe_profiles), "IPE 200"), "H": (list(h_profiles), "HE 160 A"), "RHS": (list(rhs_profiles), "RHS 150X100X6"), "SHS": (list(shs_profiles), "SHS 120X5"),
       "CHS": (list(chs_profiles), "CHS 168.3X6.3")}


def fam_of(sec):
    n = type(sec).__name__
    return "H" if n.startswith("HE") else n


def w_optimum(r, mon):
    """optimum design: the first profile of the catalogue that carries every load case"""
    S = Spec()
    S.fam = "optimum"
    H, L = r.uniform(3000, 6000), r.uniform(4000, 10000)
    fam = r.choice(list(CAT))
    member(r, S, (0, 0), (0, H), kind="column", n=4, prof=CAT[fam][1])
    member(r, S, (0, H), (L, H), kind="beam", n=4, prof=CAT[r.choice(list(CAT))][1])
    if r.random() < 0.7:
        member(r, S, (L, 0), (L, H), kind="column", n=2, prof=CAT[r.choice(list(CAT))][1])
        S.sup.append((R3((L, 0)), "fix"))
    S.sup.append(((0, 0), "fix"))
    for m in S.mem:
        m["ltb"] = False
    lids = r.sample(IDS, r.choice([1, 2, 2, 3]))
    for lid in lids:
        m = r.choice(S.mem[:2])
        q = r.uniform(-15, -1)
        S.loads.append(dict(k="l", m=m, q=[q, q], dir="y" if m is S.mem[1] else "x", cs="global", f=1.0, id=lid))
        S.loads.append(dict(k="p", c=S.mem[0]["c"][1], v=[r.uniform(-1e4, 1e4), -r.uniform(0, 1e5), 0], f=1.0, id=lid))
    typ = r.choice(["CURRENT", "CURRENT", "current", "IPE", "H", "RHS", "SHS", "CHS"])
    mon.case(dict(mem=[{k: v for k, v in m.items() if k != "obj"} for m in S.mem], loads=[{k: (S.mem.index(v) if k == "m" else v) for k, v in l.items()} for l in S.loads], typ=typ))
    f = build(r, S)
    f.generate()
    mode = r.choice(["member", "member", "frame"])
    if mode == "frame":
        fams = [fam_of(m["obj"].cross_section) for m in S.mem]
        n = [0]
        calc = f.calculate

        def count(*a, **k):
            if a and str(a[0]).lower() == "all":
                n[0] += 1
            return calc(*a, **k)
        f.calculate = count
        f.optimize_members(typ)
        f.calculate = calc
        mon.note("iterations:%d" % n[0])
        if n[0] >= 10:
            mon.note("not converged")
            return
        before = [str(m["obj"].cross_section) for m in S.mem]
        forc = [{lid: forces(m["obj"], lid) for lid in lids} for m in S.mem]
        calc("all", "REM")
        for m, a in zip(S.mem, forc):
            for lid in lids:
                for x, y in zip(a[lid], forces(m["obj"], lid)):
                    mon.close("converged forces", y, x, 1e-6, 1e-3+1e-6*np.max(np.abs(x)))
        todo = list(range(len(S.mem)))
    else:
        f.calculate("all", r.choice(["REM", "ZERO"]))
        fams = [fam_of(m["obj"].cross_section) for m in S.mem]
        todo = [r.randrange(len(S.mem))]
        m = S.mem[todo[0]]
        forc = {todo[0]: {lid: forces(m["obj"], lid) for lid in lids}}
        old = str(m["obj"].cross_section)
        ch = m["obj"].optimum_design(typ)
        mon.ok("changed", ch == (str(m["obj"].cross_section) != old), "%s -> %s returned %s" % (old, m["obj"].cross_section, ch))
    for i in todo:
        m = S.mem[i]
        o = m["obj"]
        fm = fams[i] if typ.upper() == "CURRENT" else typ
        got = str(o.cross_section)
        ls = locs(o)
        ok = False
        for name in CAT[fm][0]:
            o2 = FD.SteelFrameMember([list(p) for p in m["c"]], profile=name)
            m2 = dict(obj=o2, ltb=m["ltb"])
            us = [own_design(m2, forc[i][lid], ls) for lid in lids]
            u = max(us)
            same = str(o2.cross_section) == got
            if abs(u-1) < 3e-3:
                if same:
                    ok = True
                    break
                continue
            if same:
                mon.ok("first profile passes", u <= 1 or name == CAT[fm][0][-1], "%s chosen, utilization %g" % (got, u))
                ok = True
                break
            mon.ok("earlier profiles fail", u > 1, "%s chosen although %s has utilization %g" % (got, name, u))
            if u <= 1:
                ok = True
                break
        mon.ok("profile family", ok, "%s is not a profile of the family %s" % (got, fm))
    mon.nontrivial((mode, typ, tuple(m["prof"] for m in S.mem), len(lids), tuple(str(m["obj"].cross_section) for m in S.mem)))


WORKLOADS = {"frame": (w_frame, 220, 6000), "simple": (w_simple, 50, 1500), "optimum": (w_optimum, 30, 800)}

if __name__ == "__main__":
    vm.main(globals())
