"""T04: Truss2D - the tubular truss given by the user is the truss that is analysed."""
import os, sys, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vm
sys.path.insert(0, vm.VERIF)
import numpy as np
import matplotlib
matplotlib.use("Agg")
import metku.eurocodes.en1993
import metku.frame2d.frame2d as FD
import metku.truss2d.truss2d as TD
from metku.sections.steel.ISection import HEA
from ref.frames import Frame2D as Ref

PROPERTY = "T04"
RULE = ("random trusses of Truss2D: generated from heights, spans, number of braces, eave distance and origin (symmetric and asymmetric), with random tubular profiles, joint gaps and "
        "joint locations, supports, uniform and linear line loads on the chords in 1-2 load cases; analysed per load case in random order and re-analysed after changing profiles, gaps and locations; compared "
        "with an independent frame model (continuous chords, braces hinged at the chord faces, stiff eccentricities). Non-trivial: distinct (size, symmetry, elements, load cases, span, edits).")
MONITORS = ["chords", "braces", "joints", "displacements", "axial forces", "moments", "shear forces", "deflection", "chord members", "joint forces"]
IDS = [FD.LoadIDs.ULS, FD.LoadIDs.SLS_Frequent]
CH = ["SHS 150X150X5.0", "SHS 180X180X8.0", "RHS 200X150X8.0", "RHS 150X200X8.0", "SHS 120X120X6.0", "SHS 200X200X10.0"]
BR = ["SHS 100X100X5.0", "SHS 80X80X4.0", "RHS 100X60X4.0", "SHS 60X60X4.0", "SHS 90X90X5.0"]
TOL = 1e-3


def unit(a, b):
    d = np.array(b, float)-np.array(a, float)
    return d/np.hypot(*d), np.hypot(*d)


def foot(p, a, b):
    u, L = unit(a, b)
    s = float(np.dot(np.array(p, float)-np.array(a, float), u))
    return np.array(a, float)+s*u, s, L


class T:
    pass


def build(r):
    S = T()
    U = r.uniform
    L1 = round(U(6000, 15000), r.choice([0, -2]))
    L2 = L1 if r.random() < 0.7 else round(L1*U(0.8, 1.25))
    H1 = round(U(0.08, 0.16)*L1)
    H2 = round(H1+U(0.02, 0.12)*L1)
    H3 = 0 if r.random() < 0.6 else round(U(0.08, 0.16)*L1)
    S.n = r.choice([8, 12, 16, 20])
    S.dx = round(U(0.5, 1.2)*L1/S.n*2)
    S.org = (0, 0) if r.random() < 0.5 else (round(U(-5000, 5000)), round(U(-2000, 5000)))
    S.H0 = r.choice([0, 0, round(U(0, 5000))])
    simple = dict(H0=S.H0, H1=H1, H2=H2, L1=L1, n=S.n, dx=S.dx)
    if H3:
        simple["H3"] = H3
    if L2 != L1:
        simple["L2"] = L2
    S.H1, S.H2, S.H3, S.L1, S.L2 = H1, H2, H3 or H1, L1, L2
    S.ne = r.choice([1, 2, 3])
    S.q = -round(U(5, 40), 1) if r.random() < 0.3 else None
    S.t = TD.Truss2D(origin=S.org, simple=simple, num_elements=S.ne, **({} if S.q is None else dict(q=S.q)))
    S.sym = L1 == L2 and S.H1 == S.H3
    return S


def ends(S):
    x, y = S.org
    y += S.H0
    return ([[x, y+S.H1], [x+S.L1, y+S.H2]], [[x+S.L1, y+S.H2], [x+S.L1+S.L2, y+S.H3]], [[x+S.dx, y], [x+S.L1+S.L2-S.dx, y]])


def model(S, mon):
    """reference model from the present geometry of the braces and the given chords"""
    t = S.t
    pts, elems, own = [], [], {}

    def pid(p):
        for i, q in enumerate(pts):
            if abs(q[0]-p[0]) < 0.02 and abs(q[1]-p[1]) < 0.02:
                return i
        pts.append([float(p[0]), float(p[1])])
        return len(pts)-1
    chords = t.top_chords+t.bottom_chords
    E = ends(S)
    on = {c: [] for c in chords}
    hea = HEA(1000)
    S.feet = {}
    for w in t.webs.values():
        cs = []
        for j, c in ((w.j1, w.bot_coord), (w.j2, w.top_coord)):
            ch = j.chord
            f, s, L = foot(c, *E[chords.index(ch)])
            on[ch].append((s, tuple(f)))
            S.feet[w, j] = f
            elems.append(dict(n=(pid(f), pid(c)), E=210e3, A=float(hea.A), I=float(hea.I[0]), kind="beam", rel=[], spr={}))
            cs.append(pid(c))
        own[w] = [len(elems)]
        elems.append(dict(n=tuple(cs), E=210e3, A=float(w.cross_section.A), I=float(w.cross_section.I[0]), kind="beam", rel=[2, 5], spr={}))
    for ch, e in zip(chords, E):
        L = unit(*e)[1]
        P = on[ch]+[(0, tuple(e[0])), (L, tuple(e[1]))]
        for q in S.extra:
            f, s, _ = foot(q, *e)
            if np.hypot(*(f-np.array(q))) < 1e-2 and -1e-6 < s < L+1e-6:
                P.append((s, tuple(q)))
        # nodes of the analysed chord carry the results
        for nd in ch.nodes.values():
            f, s, _ = foot(nd.coord, *e)
            mon.ok("chords", np.hypot(*(f-np.array(nd.coord))) < 0.2, "node %s of a chord is not on the axis" % (nd.coord,))
            P.append((s, tuple(f)))
        P.sort()
        ids = []
        prev = pid(P[0][1])
        for s, p in P[1:]:
            k = pid(p)
            if k != prev and k not in [elems[i]["n"][0] for i in ids]:
                ids.append(len(elems))
                elems.append(dict(n=(prev, k), E=210e3, A=float(ch.cross_section.A), I=float(ch.cross_section.I[0]), kind="beam", rel=[], spr={}))
                prev = k
        for e_, d, k in ((ids[0], 2, ch.Sj1), (ids[-1], 5, ch.Sj2)):
            # (a hinge where nothing else is connected only hides a rotation)
            if k <= 1e-4 and any(pid(f) == elems[e_]["n"][d//3] for f in S.feet.values()):
                elems[e_]["rel"].append(d)
        own[ch] = ids
    sup = [(pid(c), d) for c, d in S.sup]
    out = {}
    cases = {}
    for l in S.loads:
        c = cases.setdefault(l["id"], ([], {}))
        if l["k"] == "p":
            c[0].append((pid(l["c"]), l["v"]))
        else:
            ch = l["m"]
            e = E[chords.index(ch)]
            for i in own[ch]:
                tt = [foot(pts[k], *e)[1]/unit(*e)[1] for k in elems[i]["n"]]
                q = [l["q"][0]+x*(l["q"][1]-l["q"][0]) for x in tt]
                c[1].setdefault(i, []).append(dict(q=q, dir=l["dir"], coords="global", f=1.0))
    ref = Ref(pts, elems, sup)
    for lid, (pl, ll) in cases.items():
        U, Rf = ref.solve(pl, ll)
        if not np.isfinite(ref.cond) or ref.cond > 1e9:
            raise vm.CaseSkip("ill conditioned")
        out[lid] = (U, Rf)
    return pts, pid, elems, own, out


def compare(mon, S, tag=""):
    t = S.t
    pts, pid, elems, own, out = model(S, mon)
    for lid, (U, Rf) in out.items():
        su = np.max(np.abs(U[:, :2]))
        sF = max(np.max(np.abs(q[[0, 1, 3, 4]])) for q in Rf)
        sM = max(np.max(np.abs(q[[2, 5]])) for q in Rf)
        for m, ids in own.items():
            nm = "%s %s case %s" % (type(m).__name__, m.mem_id, lid)
            us = np.array([U[pid(n.coord)] for n in m.nodes.values()])
            got = np.array([n.u[lid][:2] for n in m.nodes.values()])
            mon.close(tag+"displacements", got, us[:, :2], 0, TOL*su, nm)
            N, V, M = [], [], []
            for e in ids:
                q = Rf[e]
                N += [-q[0], q[3]]
                V += [q[1], -q[4]]
                M += [-q[2], q[5]]
            for mn, got, v, sc in (("axial forces", m.ned, N, sF), ("shear forces", m.ved, V, sF), ("moments", m.med, M, sM)):
                mon.close(tag+mn, abs(got), np.max(np.abs(v)), 0, 2*TOL*sc, nm)
                mon.ok(tag+mn, np.min(np.abs(np.array(v)-got)) <= 2*TOL*sc, "%s: %g is not a force of the member" % (nm, got))
    return pts, pid, elems, own, out


def loads(r, S):
    t, U = S.t, r.uniform
    E = ends(S)
    S.loads, S.sup, S.extra = [], [], []
    lids = IDS[:r.choice([1, 1, 2])]
    for lid in lids:
        up = r.random() < 0.25
        for tc in t.top_chords:
            q = U(-60, -5) if not up else U(5, 40)
            q = [q, q if S.rounds > 1 or r.random() < 0.6 else U(-60, 10)]
            S.loads.append(dict(k="l", m=tc, q=q, dir="y", id=lid))
        if r.random() < 0.4:
            S.loads.append(dict(k="l", m=t.bottom_chords[0], q=[U(-10, 5)]*2, dir=r.choice("xy"), id=lid))
    for l in r.sample(S.loads, len(S.loads)):
        t.add(FD.LineLoad(l["m"], list(l["q"]), l["dir"], load_id=l["id"]))
    if S.q is not None:
        S.loads += [dict(k="l", m=tc, q=[S.q, S.q], dir="y", id=FD.LoadIDs.ULS) for tc in t.top_chords]
    S.sup = [(E[0][0], [0, 1]), (E[1][1], [1])]
    t.add(FD.XYHingedSupport(list(E[0][0])))
    t.add(FD.YHingedSupport(list(E[1][1])))
    S.extra = [s[0] for s in S.sup]
    return lids


def inner(j):
    return j.joint_type == "K" and 0.01 < j.loc < 0.99


def sorted_webs(j):
    return sorted(j.webs.values(), key=lambda w: (w.bot_coord if j.chord.mtype == "top_chord" else w.top_coord)[0])


def angle(a, b):
    return math.acos(min(1.0, abs(float(np.dot(a, b)))))


def geometry(mon, S, settled):
    """ends of the braces on the chord faces, axes through the joints"""
    t = S.t
    chords = t.top_chords+t.bottom_chords
    E = ends(S)
    for ch, e in zip(chords, E):
        mon.close("chords", np.array(ch.coordinates, float), np.array(e, float), 0, 2e-3, "ends of chord %s" % ch.mem_id)
    # joints at equal distances
    m = S.n//4
    want = {}
    for k, tc in enumerate(t.top_chords):
        want[tc] = [i/m for i in range(m+1)]
    nb = (S.n-2)//2
    want[t.bottom_chords[0]] = [i/nb for i in range(nb+1)]
    for ch, ls in want.items():
        got = sorted(j.loc for j in ch.joints)
        mon.ok("joints", len(got) == len(ls), "%d joints at a chord, expected %d" % (len(got), len(ls)))
        for j in ch.joints:
            i = int(np.argmin([abs(l-S.l0[j]) for l in ls]))
            g = ls[i]+S.shift.get(j, 0)
            mon.ok("joints", abs(j.loc-g) < (0.03 if ls[i] in (0, 1) else 2e-3), "joint at %s of its chord, expected %s" % (j.loc, g))
    mon.ok("braces", len(t.webs) == S.n, "%d braces, expected %d" % (len(t.webs), S.n))
    for j in t.joints.values():
        ch = j.chord
        e = E[chords.index(ch)]
        u, L = unit(*e)
        nin = np.array([u[1], -u[0]]) if ch.mtype == "top_chord" else np.array([-u[1], u[0]])
        ws = sorted_webs(j)
        c = np.array(e[0], float)+j.loc*L*u
        mon.close("joints", np.array(j.coordinate, float), c, 0, 5e-3, "coordinate of joint %s" % j.jid)
        sides = []
        for w in ws:
            end = np.array(w.top_coord if ch.mtype == "top_chord" else w.bot_coord, float)
            f, sx, _ = foot(end, *e)
            h = float(np.dot(end-f, nin))
            mon.ok("braces", abs(h-ch.cross_section.H/2) < 5e-3, "brace %s ends %.3f mm from the axis of the chord, expected %.3f" % (w.mem_id, h, ch.cross_section.H/2))
            mon.ok("braces", -1e-2 < sx < L+1e-2, "brace %s ends outside the chord" % w.mem_id)
            sides.append(sx)
            ub = unit(w.bot_coord, w.top_coord)[0]
            # braces that lean over the other one are not judged
            out = float(np.dot(ub, u))*(1 if ch.mtype == "bottom_chord" else -1)*(1 if w is ws[-1] else -1)
            if inner(j) and j.g1 > 0 and out > 0:
                ec = c-j.e*np.array(ch.perpendicular)
                d = end-ec
                d = abs(d[0]*ub[1]-d[1]*ub[0])
                mon.ok("braces", d < (2 if settled else 40), "axis of brace %s passes joint %s at a distance of %.2f mm" % (w.mem_id, j.jid, d))
        if len(ws) == 2:
            th = [angle(unit(w.bot_coord, w.top_coord)[0], u) for w in ws]
            mon.close("joints", [j.theta1, j.theta2], th, 0, 1e-4, "angles of joint %s" % j.jid)
            if inner(j) and settled:
                gap = sides[1]-sides[0]-sum(w.cross_section.H/2/math.sin(a) for w, a in zip(ws, th))
                mon.close("joints", j.g1, gap, 0, 0.5, "gap of joint %s" % j.jid)
                if j in S.gap:
                    mon.close("joints", gap, S.gap[j], 0, 0.5, "requested gap of joint %s" % j.jid)
            br = j.rhs_joint.braces
            mon.ok("joints", len(br) == 2 and all(abs(b.profile.H if hasattr(b, "profile") else b.H)-w.cross_section.H < 1e-9 for b, w in zip(br, ws)), "braces of the joint model")
        else:
            mon.close("joints", j.theta1, angle(unit(ws[0].bot_coord, ws[0].top_coord)[0], u), 0, 1e-4, "angle of joint %s" % j.jid)


def joint_forces(mon, S, lid, res):
    """chord forces of the joint models after the analysis of a load case"""
    pts, pid, elems, own, out = res
    t = S.t
    U, Rf = out[lid]
    sF = max(np.max(np.abs(q[[0, 1, 3, 4]])) for q in Rf)
    sM = max(np.max(np.abs(q[[2, 5]])) for q in Rf)
    E = ends(S)
    chords = t.top_chords+t.bottom_chords
    for j in t.joints.values():
        u, L = unit(*E[chords.index(j.chord)])
        ws = sorted_webs(j)
        th = [math.degrees(angle(unit(w.bot_coord, w.top_coord)[0], u)) for w in ws]
        got = j.rhs_joint.angles if j.joint_type == "K" else [j.rhs_joint.angle]
        mon.close("joints", got, th, 0, 1e-2, "angles of the model of joint %s" % j.jid)
        n0, m0 = [], []
        for w in ws:
            k = pid(S.feet[w, j])
            adj = [i for i in own[j.chord] if k in elems[i]["n"]]
            # the force of the element that starts at the node (at the end of the chord: that ends there)
            st = [i for i in adj if elems[i]["n"][0] == k] or adj
            q = Rf[st[0]]
            n0.append(max(-q[0], q[3], key=abs))
            m0.append(max(abs(q[2]), abs(q[5])))
        mon.close("joint forces", abs(j.rhs_joint.N0), max(abs(x) for x in n0), 0, 3*TOL*sF, "chord force of joint %s" % j.jid)
        mon.ok("joint forces", min(abs(j.rhs_joint.N0-x) for x in n0) < 3*TOL*sF, "chord force of joint %s: %g is none of %s" % (j.jid, j.rhs_joint.N0, n0))
        mon.close("joint forces", j.rhs_joint.M0, max(m0), 0, 3*TOL*sM, "chord moment of joint %s" % j.jid)
    # steel members between the joints
    for ch in chords:
        js = sorted(ch.joints, key=lambda j: j.loc)
        mon.ok("chord members", len(ch.members) == len(js)-1, "%d steel members between %d joints" % (len(ch.members), len(js)))
        L = unit(*E[chords.index(ch)])[1]
        for m, a, b in zip(ch.members, js[:-1], js[1:]):
            mon.close("chord members", m.length, (b.loc-a.loc)*L, 1e-4, 0.05, "length of the member between joints %s and %s" % (a.jid, b.jid))
            mon.close("chord members", m.profile.A, ch.cross_section.A, 1e-9, 0, "profile of the member between joints")
            if "c0" in a.nodes and len(m.ned):
                xa, xb = [foot(j.nodes["c0"].coord, *E[chords.index(ch)])[1] for j in (a, b)]
                v, mom = [], {}
                for i in own[ch]:
                    x = [foot(pts[k], *E[chords.index(ch)])[1] for k in elems[i]["n"]]
                    if xa-0.1 < min(x) and max(x) < xb+0.1:
                        v += [-Rf[i][0], Rf[i][3]]
                        for k, f in zip(elems[i]["n"], (Rf[i][2], Rf[i][5])):
                            mom.setdefault(k, []).append(abs(f))
                # nodes of the member but the last
                mom = [f for k, f in mom.items() if foot(pts[k], *E[chords.index(ch)])[1] < xb-0.1 and len(f) == 2]
                if mom:
                    got = np.max(np.abs(m.myed))
                    mon.ok("chord members", got > max(map(min, mom))-3*TOL*sM, "moment of the member between joints %s and %s: %g, moments %s" % (a.jid, b.jid, got, mom))
                if v:
                    mon.close("chord members", np.max(np.abs(m.ned)), np.max(np.abs(v)), 0, 3*TOL*sF, "axial force of the member between joints %s and %s" % (a.jid, b.jid))


def deflection(mon, S, lid, res):
    pts, pid, elems, own, out = res
    U = out[lid][0]
    bc = S.t.bottom_chords[0]
    w = max(abs(U[pid(n.coord)][1]) for n in bc.nodes.values())
    mon.close("deflection", S.t.get_deflection(lid), w, 2*TOL, 0, "largest deflection of the bottom chord")


def edit(r, S, generated):
    t = S.t
    k = r.choice(['top', 'bottom', 'brace', 'gap', 'loc']) if generated else r.choice(['top','bottom','brace','gap','loc'])
    try:
        if k == "top":
            p = r.choice(CH)
            for c in t.top_chords:
                c.profile = p
        elif k == "bottom":
            t.bottom_chords[0].profile = r.choice(CH)
        elif k == "brace":
            for w in r.sample(list(t.webs.values()), r.randint(1, 4)):
                w.profile = r.choice(BR)
        elif k == "gap":
            j = r.choice([j for j in t.joints.values() if inner(j)])
            j.g1 = S.gap[j] = r.choice([20, 35, 50, 80])
        else:
            j = r.choice([j for j in t.joints.values() if inner(j)])
            d = r.uniform(-0.02, 0.02)
            S.shift[j] = round(j.loc+d, 3)-j.loc+S.shift.get(j, 0)
            j.loc = j.loc+d
    except ZeroDivisionError:
        raise
    return k


def w_truss(r, mon):
    S = build(r)
    t = S.t
    S.gap, S.shift = {}, {}
    S.rounds = r.choice([1, 2, 3])
    S.l0 = {j: j.loc for j in t.joints.values()}
    ks = [edit(r, S, False) for _ in range(r.choice([0, 0, 1, 2, 3]))]
    lids = loads(r, S)
    settled = r.random() < 0.5
    if settled:
        for _ in range(10):
            t.update_model()
    all_loads = S.loads
    t.generate()
    geometry(mon, S, settled)
    mon.case((S.n, S.sym, S.ne, len(lids), round(S.L1, -3), tuple(ks)))
    mon.nontrivial((S.n, S.sym, S.ne, len(lids), round(S.L1, -3), tuple(ks)))
    rounds = S.rounds
    for k in range(rounds):
        order = r.sample(lids, len(lids))
        for lid in order:
            t.calculate(load_id=lid)
            t.calc_nodal_forces(lid)
            S.loads = [l for l in all_loads if l["id"] == lid]
            res = compare(mon, S, "" if k == 0 else "re-analysis: ")
            joint_forces(mon, S, lid, res)
            deflection(mon, S, lid, res)
        if k < rounds-1:
            edit(r, S, True)


WORKLOADS = {"truss": (w_truss, 80, 800)}

if __name__ == "__main__":
    vm.main(globals())
