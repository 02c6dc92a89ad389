"""J01: welded hollow-section joints: resistances, design and geometry."""
import os, sys, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vm
sys.path.insert(0, vm.VERIF)
import numpy as np
import trussgen as T
from ref import joints as R
from metku.sections.steel.RHS import RHS, SHS
from metku.structures.steel.steel_member import SteelMember
from metku.eurocodes.en1993.en1993_1_8.rhs_joints import RHSKGapJoint, RHSYJoint, RHSXJoint, Line, eccentricity, rotate

PROPERTY = "J01"
RULE = ("one case is one random welded hollow-section joint (K gap, Y or X; square and rectangular members, S235-S700, chord in tension or compression with bending, brace senses, angles, gaps; "
        "members given as profiles or as steel members) or one random analysed roof truss, put through a random history of force, gap, angle and section changes; every resistance and utilisation "
        "is compared with EN 1993-1-8 Tables 7.11/7.12 written independently. Non-trivial: distinct (joint kind, beta band, chord sense, brace sense, governing mode).")
MONITORS = ["chord stress", "face failure", "chord shear", "brace failure", "punching shear", "side wall", "K design", "Y design", "brace forces", "gap forces", "eccentricity", "lines", "truss joints"]
FY = [235, 275, 355, 420, 420, 500, 700]


def d_of(p, fy=None):
    return dict(h=float(p.H), b=float(p.B), t=float(p.T), fy=float(p.fy if fy is None else fy), A=float(p.A), W=float(2 * p.I[0] / p.H))


def tube(r, bmax, bmin, fy):
    t = r.choice([3, 4, 5, 6, 8, 10])
    lo = max(bmin, 5 * t, 30)
    hi = max(bmax, lo)
    b = r.choice([r.uniform(lo, hi), round(r.uniform(lo, hi) / 10) * 10.0])
    b = min(max(b, lo), hi)
    if r.random() < 0.5:
        return SHS(b, t, fy)
    return RHS(max(lo, b * r.uniform(0.6, 1.7)), b, t, fy)


def chord(r):
    fy = r.choice(FY)
    t = r.choice([4, 5, 6, 8, 10, 12.5])
    b = t * r.uniform(10, 35)
    h = b if r.random() < 0.5 else b * r.uniform(0.5, 1.9)
    return RHS(h, b, t, fy) if h != b else SHS(b, t, fy)


def carry(r, m, N):
    m.clear_sections()
    loc = r.sample([0.0, 0.3, 0.5, 1.0], r.randint(1, 4))
    for k, x in enumerate(loc):
        m.add_section(ned=N if k == 0 else N * r.random(), loc=x)


def member(r, p, N):
    """profile with its force, or a steel member carrying it"""
    p.Ned = N
    if r.random() < 0.5:
        return p, False
    m = SteelMember(p, length=r.uniform(500, 5000))
    carry(r, m, N)
    return m, True


def w_kgap(r, mon):
    cp = chord(r)
    b0 = cp.B
    fyb = r.choice(FY)
    bp = [tube(r, b0, max(0.25 * b0, 30), r.choice([fyb, cp.fy])) for _ in (0, 1)]
    ang = [r.uniform(25, 90), r.uniform(25, 85)]
    if r.random() < 0.3:
        ang[1] = ang[0] if ang[0] < 85 else 60.0
    A0 = cp.A * cp.fy
    sgn = r.choice([1, -1])
    N = [sgn * r.uniform(0.05, 0.6) * bp[0].A * bp[0].fy, 0]
    N[1] = -N[0] * math.sin(math.radians(ang[0])) / math.sin(math.radians(ang[1])) * r.choice([1.0, 1.0, r.uniform(0.5, 1.5)])
    gap = r.uniform(0, 0.8) * b0
    N0 = r.uniform(-0.9, 0.9) * A0
    M0 = r.choice([0, 1]) * r.uniform(-0.3, 0.3) * cp.fy * cp.I[0] * 2 / cp.H
    V0 = 0.0
    mem = r.random() < 0.5
    br = []
    for p, n in zip(bp, N):
        p.Ned = n
        if mem:
            m = SteelMember(p, length=1000.0)
            carry(r, m, n)
            br.append(m)
        else:
            br.append(p)
    ch = SteelMember(cp, length=2000.0) if r.random() < 0.3 else cp
    mon.case(dict(chord=repr(cp), fy0=cp.fy, braces=[repr(p) for p in bp], fy=[p.fy for p in bp], ang=ang, N=N, gap=gap, N0=N0, M0=M0, members=mem))
    J = RHSKGapJoint(ch, br, list(ang), gap, N0=N0, V0=V0, M0=M0)
    rr = 0
    for step in range(r.randint(1, 4)):
        c, x = d_of(cp), [d_of(p) for p in bp]
        i = 0 if N[0] < 0 else 1                      # compression brace
        N1, N2 = abs(N[i]), abs(N[1 - i])
        V = N1 * math.sin(math.radians(ang[i]))
        w = R.k_joint(c, x, ang, gap, N0, M0, V, rr)
        d = "%s %s ang=%s gap=%.1f N=%s N0=%.0f M0=%.0f step %d" % (cp, bp, ang, gap, N, N0, M0, step)
        mon.close("brace forces", J.NEd, np.abs(N), 1e-9, 1e-9, d)
        mon.close("brace forces", [J.N1, J.N2, J.angle1, J.angle2], [N1, N2, ang[i], ang[1 - i]], 1e-9, 0, d + " compression/tension brace")
        mon.close("gap forces", J.V0gap, V, 1e-9, 0, d)
        want = N0 + N2 * math.cos(math.radians(ang[1 - i])) if N0 < 0 else N0 + N1 * math.cos(math.radians(ang[i]))
        mon.close("gap forces", J.N0gap, want, 1e-9, 1e-6 * A0, d)
        mon.close("chord stress", J.eval_N(), (-N0 / c["A"] + M0 / c["W"]) / c["fy"], 1e-7, 1e-9, d)
        mon.close("chord stress", J.eval_KN(), w["kn"], 1e-7, 1e-9, d)
        mon.close("chord stress", [J.beta(), J.gamma()], [w["beta"], c["b"] / 2 / c["t"]], 1e-9, 0, d)
        mon.close("face failure", J.chord_face_failure(), w["face"], 1e-7, 0, d)
        Ni, NC = J.chord_shear()
        mon.close("chord shear", Ni, w["shear"], 1e-7, 0, d)
        lo, hi = min(w["chord"]), max(w["chord"])
        nearV = any(abs(V / q - 1) < 1e-6 for q in (c["fy"] / math.sqrt(3) * c["A"] * c["h"] / (c["b"] + c["h"]), c["fy"] / math.sqrt(3) * w["Av"]))
        if not nearV:
            mon.ok("chord shear", lo * (1 - 1e-7) - 1e-6 <= NC <= hi * (1 + 1e-7) + 1e-6, "%s N0Rd %.1f not in %s" % (d, NC, w["chord"]))
        mon.close("brace failure", J.brace_failure(), w["brace"], 1e-7, 0, d)
        mon.close("punching shear", J.punching_shear(), w["punch"], 1e-7, 0, d)
        if w["edge"] > 1e-9:
            with np.errstate(all="ignore"):
                u = np.asarray(J.design(), float).ravel()
            mon.close("K design", u[:2], [abs(n) / q for n, q in zip(N, w["min"])], 1e-7, 0, d)
            uc = u[2:] if len(u) > 2 else [float("nan")]
            cand = [abs(n) / q if q > 0 else math.inf for n in (N0, want) for q in (lo, hi)]
            if not nearV:
                mon.ok("K design", len(uc) == 1 and min(cand) * (1 - 1e-7) - 1e-9 <= uc[0] <= max(cand) * (1 + 1e-7) + 1e-9, "%s chord utilisation %s want in %s" % (d, uc, cand))
        s1, s2 = (math.sin(math.radians(a)) for a in ang)
        # distance from chord axis of the intersection of two brace axes whose near edges are 'gap' apart on the face
        t1, t2 = (1 / math.tan(math.radians(a)) for a in ang)
        half = 0.5 * x[0]["h"] / s1 + 0.5 * x[1]["h"] / s2 + gap
        e = half / (t1 + t2) - 0.5 * c["h"]
        mon.close("eccentricity", J.eccentricity(), e, 1e-7, 1e-7 * c["h"], d)
        mon.close("eccentricity", eccentricity(c["h"], x[0]["h"], x[1]["h"], ang[0], ang[1], gap), e, 1e-7, 1e-7 * c["h"], d)
        g = dict(zip(["face", "shear", "brace", "punch"], [w[k][0] for k in ("face", "shear", "brace", "punch")]))
        mon.nontrivial(("K", round(w["beta"], 1), N0 < 0, sgn, min(g, key=g.get), round(ang[0] / 10)))
        op = r.choice(["N0", "M0", "gap", "angle", "flip", "r", "chord", "plate"])
        if op == "N0":
            N0 = J.N0 = r.uniform(-0.9, 0.9) * A0
        elif op == "M0":
            M0 = J.M0 = r.uniform(-0.3, 0.3) * cp.fy * 2 * cp.I[0] / cp.H
        elif op == "gap":
            gap = J.gap = r.uniform(0, 1) * b0
        elif op == "angle":
            ang = [r.uniform(25, 85), r.uniform(25, 85)]
            J.angles = list(ang)
        elif op == "flip":
            N = [-n for n in N]
            for m, n in zip(J.braces, N):
                carry(r, m, n)
            sgn = -sgn
        elif op == "r":
            rr = J.r = r.choice([0, 0.85, 0.7])
        elif op == "chord":
            cp = chord(r)
            if cp.B < max(p.B for p in bp):
                cp = RHS(cp.H, max(p.B for p in bp) * 1.1, cp.T, cp.fy)
            J.chord.profile = cp
            A0 = cp.A * cp.fy
            b0 = cp.B
        else:
            Jp = RHSKGapJoint(cp, [q.profile for q in J.braces], list(ang), gap)
            arg = dict(lp=r.uniform(0, 3 * c["h"]), bp=r.uniform(0, 1.2 * c["b"]), tp=r.uniform(0, 30))
            Jp.add_chord_face_plate(**arg)
            x1 = [d_of(q.profile) for q in J.braces]
            cc = d_of(cp)
            hs = sum(q["h"] / math.sin(math.radians(a)) for q, a in zip(x1, ang)) + gap
            P = Jp.chord_face_plate
            mon.close("face failure", [P["lp"], P["bp"], P["tp"]], [max(arg["lp"], 1.5 * hs), max(arg["bp"], cc["b"] - 2 * cc["t"]), max(arg["tp"], 2 * max(q["t"] for q in x1))], 1e-9, 0, d + " plate")


def w_yx(r, mon):
    kind = r.choice("YYX")
    cp = chord(r)
    b0 = cp.B
    bp = tube(r, b0, max(0.25 * b0, 30), r.choice([r.choice(FY), cp.fy]))
    if r.random() < 0.45:
        b = b0 * r.uniform(0.85, 0.999)
        if r.random() < 0.2:
            b = b0
        t = min(bp.T, b / 6)
        bp = RHS(max(b * r.uniform(0.5, 1.4), 6 * t), b, t, bp.fy)
    ang = r.choice([90.0, 45.0, r.uniform(20, 90), r.uniform(20, 90)])
    N1 = r.choice([1, -1]) * r.uniform(0.05, 0.8) * bp.A * bp.fy
    A0 = cp.A * cp.fy
    N0 = r.uniform(-0.9, 0.9) * A0
    M0 = r.choice([0, 1]) * r.uniform(-0.3, 0.3) * cp.fy * cp.I[0] * 2 / cp.H
    mon.case(dict(kind=kind, chord=repr(cp), fy0=cp.fy, brace=repr(bp), fy=bp.fy, ang=ang, N1=N1, N0=N0, M0=M0))
    br, _ = member(r, bp, N1)
    ch = SteelMember(cp, length=2000.0) if r.random() < 0.3 else cp
    J = (RHSYJoint if kind == "Y" else RHSXJoint)(ch, br, ang, N0=N0, M0=M0)
    rr = 0
    for step in range(r.randint(1, 4)):
        c, x = d_of(cp), d_of(bp)
        w = R.y_joint(c, x, ang, N1, N0, M0, kind, rr)
        d = "%s %s fy %s/%s ang=%.2f N1=%.0f N0=%.0f M0=%.0f step %d" % (kind, (cp, bp), cp.fy, bp.fy, ang, N1, N0, M0, step)
        mon.close("brace forces", J.N1, N1, 1e-9, 0, d)
        mon.close("chord stress", [J.eval_N(), J.eval_KN(), J.beta(), J.gamma(), J.eta], [(-N0 / c["A"] + M0 / c["W"]) / c["fy"], w["kn"], w["beta"], c["b"] / 2 / c["t"], x["h"] / c["b"]], 1e-7, 1e-9, d)
        if w["beta"] < 0.999 or w["beta"] == 1:
            mon.close("face failure", J.chord_face_failure(), w["face"], 1e-7, 0, d)
        mon.close("side wall", J.fb(), w["fb"], 1e-7, 0, d)
        wb = float(J.chord_web_buckling())
        if w["kn"] > 0:
            mon.ok("side wall", w["wall"][0] * (1 - 1e-6) <= wb <= w["wall"][1] * (1 + 1e-6), "%s wall %.1f not in %s" % (d, wb, w["wall"]))
        mon.close("brace failure", J.brace_failure(), w["brace"], 1e-7, 0, d)
        mon.close("punching shear", J.punching_shear(), w["punch"], 1e-7, 0, d)
        if w["edge"] > 1e-9:
            u = float(J.design())
            lo, hi = sorted(abs(N1) / q for q in w["min"]) if min(w["min"]) > 0 else (None, None)
            if lo is not None:
                mon.ok("Y design", lo * (1 - 1e-6) <= u <= hi * (1 + 1e-6), "%s u=%.6g not in (%.6g, %.6g)" % (d, u, lo, hi))
        mon.nontrivial((kind, round(w["beta"], 1), w["beta"] >= .85, N0 < 0, N1 < 0, round(ang / 10)))
        op = r.choice(["N0", "M0", "N1", "angle", "r", "chord", "brace"])
        if op == "N0":
            N0 = J.N0 = r.uniform(-0.9, 0.9) * A0
        elif op == "M0":
            M0 = J.M0 = r.uniform(-0.3, 0.3) * cp.fy * 2 * cp.I[0] / cp.H
        elif op == "N1":
            N1 = J.N1 = r.choice([1, -1]) * r.uniform(0.05, 0.8) * bp.A * bp.fy
        elif op == "angle":
            ang = J.angle = r.uniform(20, 90)
        elif op == "r":
            rr = J.r = r.choice([0, 0.85, 0.7])
        elif op == "chord":
            cp = chord(r)
            if cp.B < bp.B:
                cp = RHS(cp.H, bp.B * r.uniform(1.0, 1.3), cp.T, cp.fy)
            J.chord.profile = cp
            A0 = cp.A * cp.fy
        else:
            bp = tube(r, cp.B, max(0.25 * cp.B, 30), r.choice(FY))
            if bp.B > cp.B:
                bp = SHS(cp.B, min(bp.T, cp.B / 6), bp.fy)
            J.brace.profile = bp


def w_lines(r, mon):
    p, q = ([r.uniform(-1e4, 1e4) for _ in (0, 1)] for _ in (0, 1))
    a = r.uniform(0, 2 * math.pi)
    v = np.array([math.cos(a), math.sin(a)])
    mon.case(dict(p=p, q=q, a=a))
    k = r.choice(["pv", "pp"])
    l1 = Line(p1=list(p), v=v) if k == "pv" else Line(p1=np.array(p), p2=np.array(p) + r.uniform(10, 5000) * v)
    b = a + r.choice([1, -1]) * r.uniform(0.15, 1.57)
    u = np.array([math.cos(b), math.sin(b)])
    l2 = Line(p1=np.array(q), v=u)
    s, x = l1.intersect(l2)
    cr = lambda a, b: a[0] * b[1] - a[1] * b[0]
    pv = np.array(p)
    tt = cr(np.array(q) - pv, u) / cr(v, u)
    d = "%s %s" % (l1, l2)
    S = 1e4 / abs(cr(v, u))
    mon.close("lines", x, pv + tt * v, 0, 1e-8 * S, d)
    mon.close("lines", s, [tt, cr(np.array(q) - pv, v) / cr(v, u)], 0, 1e-8 * S, d)
    mon.close("lines", l1(s[0]), l2(s[1]), 0, 1e-8 * S, d)
    z = np.array([r.uniform(-1e4, 1e4), r.uniform(-1e4, 1e4)])
    D, xc = l1.distance(z)
    mon.close("lines", D, abs(cr(v, z - pv)), 0, 1e-7, d)
    mon.close("lines", xc, pv + v * float((z - pv) @ v), 0, 1e-7, d)
    th = r.uniform(-400, 400)
    w = rotate(list(z), th)
    g = math.radians(th)
    mon.close("lines", w, [z[0] * math.cos(g) - z[1] * math.sin(g), z[0] * math.sin(g) + z[1] * math.cos(g)], 0, 1e-7, d)
    mon.nontrivial((k, round(a, 1), round(b, 1)))


def w_truss(r, mon):
    """joints of an analysed truss: resistances and utilisation follow the members and the forces"""
    Pm = T.params(r)
    if Pm["top"] == "KT":
        Pm["top"] = r.choice(["K", "N"])
    fy = r.choice([355, 420, 500])
    mon.case({k: repr(v) for k, v in Pm.items()})
    t = T.build(Pm)
    models = ["no_eccentricity"] + (["en1993"] if Pm["dx"] > 0 or Pm["ev"] else []) + (["ecc_elements"] if Pm["dx"] > 0 else [])
    model = r.choice(models)
    for lid in (1, 2):
        t.generate_uniform_load(r.uniform(-30, 30), "top", load_id=lid, ltype="live")
    for step in range(r.randint(1, 3)):
        t.generate_fem(model)
        t.structural_analysis("all", support_method="REM", design=False)
        lids = [1, 2]
        r.shuffle(lids)
        for lid in lids:
            t.design_joints(lid)
        for lid in (1, 2):
            for j in t.joints.values():
                if isinstance(j, T.TubularKTGapJoint):
                    continue
                lids_ok = j.design(lid) if isinstance(j, T.TubularYJoint) else j.design(lid, verb=False)
                u = np.asarray(lids_ok, float).ravel()
                ch = [m.NEd[lid] for m in j.chords]
                N0 = max(ch, key=abs)
                c = d_of(j.chords[0].cross_section)
                x = [d_of(b.cross_section) for b in j.braces]
                N = [b.NEd[lid] for b in j.braces]
                d = "%s case %d %r" % (model, lid, j)
                tie = len(ch) > 1 and abs(abs(ch[0]) - abs(ch[1])) < 1e-6 * (1 + abs(ch[0])) and ch[0] * ch[1] < 0
                if tie:
                    continue
                if isinstance(j, T.TubularYJoint):
                    w = R.y_joint(c, x[0], j.angle, N[0], N0, 0.0, "Y")
                    mon.close("truss joints", [j.N0, j.chord_face_failure(), j.brace_failure(), j.punching_shear()], [N0, w["face"], w["brace"], w["punch"]], 1e-7, 1e-6, d)
                    mon.ok("truss joints", w["wall"][0] * (1 - 1e-6) <= j.chord_web_buckling(lid) <= w["wall"][1] * (1 + 1e-6), d)
                    if w["edge"] > 1e-9 and min(w["min"]) > 0:
                        lo, hi = sorted(abs(N[0]) / q for q in w["min"])
                        mon.ok("truss joints", lo * (1 - 1e-6) <= u[0] <= hi * (1 + 1e-6), "%s u=%s (%s %s)" % (d, u, lo, hi))
                    mon.close("truss joints", j.utilization[lid], u[0], 1e-12, 0, d)
                else:
                    gap, ang = float(j.gap), [float(a) for a in j.angles]
                    V = float(j.V0gap(lid))
                    w = R.k_joint(c, x, ang, gap, N0, 0.0, V)
                    mon.close("truss joints", j.N0, N0, 1e-9, 1e-6, d)
                    mon.close("truss joints", j.chord_face_failure(), w["face"], 1e-7, 0, d)
                    mon.close("truss joints", j.brace_failure(), w["brace"], 1e-7, 0, d)
                    mon.close("truss joints", j.punching_shear(), w["punch"], 1e-7, 0, d)
                    mon.close("truss joints", j.chord_shear(V)[0], w["shear"], 1e-7, 0, d)
                    if w["edge"] > 1e-9:
                        mon.close("truss joints", u[:2], [abs(n) / q for n, q in zip(N, w["min"])], 1e-7, 1e-9, d)
                    lo, hi = min(w["chord"]), max(w["chord"])
                    cand = [abs(N0) / q if q > 0 else math.inf for q in (lo, hi)]
                    mon.ok("truss joints", len(u) == 3 and min(cand) * (1 - 1e-6) - 1e-9 <= u[2] <= max(cand) * (1 + 1e-6) + 1e-9, "%s chord %s want %s" % (d, u, cand))
                    mon.close("truss joints", j.utilization[lid], float(np.max(u)), 1e-12, 0, d)
                    # shear in the gap: what the braces hand over to the chord, when both sides are in balance
                    if model == "no_eccentricity":
                        mon.close("truss joints", V, max(abs(n) * math.sin(math.radians(a)) for n, a in zip(N, ang)), 1e-7, 1e-6, d + " gap shear")
                mon.nontrivial((type(j).__name__, model, step, round(w["beta"], 1), N0 < 0))
        op = r.choice(["sec", "yloc", "model"])
        kg = [j for j in t.joints.values() if isinstance(j, T.TubularKGapJoint)]
        if op == "sec":
            t.top_chord_profile = T.chord(r)
        elif op == "yloc" and kg:
            j = r.choice(kg)
            j.yloc = r.uniform(0.0, 0.25) * j.h0
        else:
            model = r.choice(models)


WORKLOADS = {"kgap": (w_kgap, 6000, 200000), "yx": (w_yx, 6000, 200000), "lines": (w_lines, 2000, 40000), "truss": (w_truss, 150, 4000)}
ASSUMPTIONS = ["braces of a K joint carry opposite senses; beta <= 1; angles 20-90 degrees", "chord Vpl,Rd may use the shear area of EN 1993-1-1 or of Table 7.12", "KT joints have no design in the code base"]
if __name__ == "__main__":
    vm.main(globals())
