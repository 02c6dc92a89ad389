"""P02: cold-formed profiles and sheeting (EN 1993-1-3)."""
import os, sys, math, io, contextlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vm
import numpy as np
import metku.eurocodes.en1993
from metku.eurocodes.en1993.en1993_1_3 import en1993_1_3 as p3
from metku.eurocodes.en1993.en1993_1_3.open_prof import OpenProf, Node
from metku.eurocodes.en1993.en1993_1_3.cf_profs import ZSection, CSection, ruukki_z
from metku.eurocodes.en1993.en1993_1_3.trapezoidal import TrapezoidalSheet
from metku.materials.steel_data import Steel
from metku.structures.steel.cf_steel_member import CFSteelMember

PROPERTY = "P02"
RULE = ("one case is a random open profile (3 to 12 nodes, thickness per segment, then moved, rotated, reversed, split or with changed nodes and segments), a random C or Z section with or without lips, a random web under transverse loads, a random screw, purlin restraint or sheeting; "
        "section constants are compared with an integration over the centre line (shear centre as the pole about which the sectorial coordinate is orthogonal to the coordinates), geometry with the centre line drawn from the dimensions, resistances with EN 1993-1-3 evaluated independently. Non-trivial: distinct (shape, transformation, branch of the rule).")
MONITORS = ["area", "moments", "principal axes", "shear centre", "warping", "torsion", "invariance", "split", "changed nodes", "section geometry", "notional widths", "average strength", "local buckling", "purlin", "reduction", "transverse", "two webs", "screws", "purlin restraint", "sheeting", "relations"]
GAUSS = [(0.5 * (1 + s * math.sqrt(0.6)) if s else 0.5, w) for s, w in ((-1, 5 / 18), (0, 8 / 18), (1, 5 / 18))]


def steel():
    return Steel("S350GD")


# ------------------------------------------------------------------ profiles
def integ(P, T):
    """Section constants by Gauss integration over the centre line."""
    P = np.array(P, float)
    s = []
    for a, b, t in zip(P[:-1], P[1:], T):
        L = math.hypot(*(b - a))
        for x, w in GAUSS:
            s.append((a + x * (b - a), w * L * t))
    X = np.array([p for p, w in s]); W = np.array([w for p, w in s])
    A = W.sum()
    c = (X * W[:, None]).sum(0) / A
    Y, Z = (X - c).T
    Iy, Iz, Iyz = (Z * Z * W).sum(), (Y * Y * W).sum(), (Y * Z * W).sum()
    It = sum(math.hypot(*(b - a)) * t ** 3 / 3 for a, b, t in zip(P[:-1], P[1:], T))

    def sect(pole):
        w, out = 0.0, []
        for a, b in zip(P[:-1], P[1:]):
            r, d = a - pole, b - a
            k = r[0] * d[1] - r[1] * d[0]
            out += [w + x * k for x, _ in GAUSS]
            w += k
        o = np.array(out)
        return o - (o * W).sum() / A
    # orthogonality is linear in the pole: three evaluations determine it
    f = lambda p: np.array([(sect(np.array(p, float)) * Y * W).sum(), (sect(np.array(p, float)) * Z * W).sum()])
    h = max(abs(Y).max(), abs(Z).max())
    f0, f1, f2 = f(c), f(c + [h, 0]), f(c + [0, h])
    M = np.array([(f1 - f0) / h, (f2 - f0) / h]).T
    sc = c + np.linalg.solve(M, -f0)
    o = sect(sc)
    Iw = (o * o * W).sum()
    return dict(A=A, c=c, Iy=Iy, Iz=Iz, Iyz=Iyz, It=It, sc=sc, Iw=Iw, h=h)


def check_profile(mon, p, P, T, msg, names=("area", "moments", "shear centre", "warping", "torsion")):
    try:
        q = integ(P, T)
    except np.linalg.LinAlgError:
        raise vm.CaseSkip()
    h = q["h"]
    if q["Iy"] * q["Iz"] - q["Iyz"] ** 2 < 1e-4 * q["Iy"] * q["Iz"]:
        raise vm.CaseSkip()
    d0 = float(np.abs(np.array(P)).max())
    yc, zc, A = p.centroid()
    mon.close(names[0], [p.area(), A], [q["A"]] * 2, 1e-9, 0, msg + ": area")
    mon.close(names[0], [yc, zc], q["c"], 0, 1e-8 * (h + d0), msg + ": centroid")
    tol = 1e-9 * A * (d0 + h) ** 2
    mon.close(names[1], list(p.second_moments_gc()) + [p.Iy(), p.Iz(), p.product_moment_gc()], [q["Iy"], q["Iz"], q["Iy"], q["Iz"], q["Iyz"]], 1e-7, tol, msg + ": second moments")
    c = q["c"]
    mon.close(names[1], list(p.second_moments()) + [p.Iy0(), p.Iz0(), p.product_moment()], [q["Iy"] + A * c[1] ** 2, q["Iz"] + A * c[0] ** 2, q["Iy"] + A * c[1] ** 2, q["Iz"] + A * c[0] ** 2, q["Iyz"] + A * c[0] * c[1]], 1e-7, tol, msg + ": second moments about the given axes")
    mon.close(names[1], p.first_moments(), [A * c[1], A * c[0]], 1e-8, 1e-9 * A * (d0 + h), msg + ": first moments")
    mon.close(names[2], p.shear_center(), q["sc"], 1e-6, 1e-6 * (h + d0), msg + ": shear centre")
    mon.close(names[3], p.warping_constant(), q["Iw"], 1e-5, 1e-8 * A * h ** 4, msg + ": warping constant")
    mon.close(names[4], p.torsion_constant(), q["It"], 1e-9, 0, msg + ": torsion constant")
    mon.close(names[4], p.torsion_modulus(), q["It"] / min(T), 1e-9, 0, msg + ": torsion modulus")
    return q


def polyline(r):
    n = r.choice([3, 4, 4, 5, 6, 7, r.randrange(4, 13)])
    kind = r.choice(["free", "free", "channel", "zed", "angle", "hat", "lipped"])
    h, b, c, t = r.uniform(20, 300), r.uniform(10, 120), r.uniform(4, 40), r.uniform(0.4, 6)
    if kind == "free":
        P = [[r.uniform(-100, 100), r.uniform(-100, 100)] for _ in range(n)]
    elif kind == "channel":
        P = [[b, 0], [0, 0], [0, h], [b, h]]
    elif kind == "zed":
        P = [[-b, 0], [0, 0], [0, h], [b * r.uniform(0.5, 1.5), h]]
    elif kind == "angle":
        P = [[b, 0], [0, 0], [0, h]]
    elif kind == "hat":
        P = [[-c, 0], [0, 0], [r.uniform(0, 15), h], [b + 15, h], [b + 30, 0], [b + 30 + c, 0]]
    else:
        P = [[b, c], [b, 0], [0, 0], [0, h], [b, h], [b, h - c]]
    if r.random() < 0.5:
        o = [r.uniform(-200, 200), r.uniform(-200, 200)]
        P = [[x + o[0], y + o[1]] for x, y in P]
    m = len(P) - 1
    if r.random() < 0.5:
        t = r.choice([t, float(round(t) or 1), max(1, int(t))])
        return kind, P, t, [t] * m
    T = [r.uniform(0.4, 6) for _ in range(m)]
    return kind, P, r.choice([list, tuple, np.array])(T), T


def w_profile(r, mon):
    kind, P, t, T = polyline(r)
    mon.case(dict(kind=kind, nodes=P, t=T))
    nodes = [Node(*x) for x in P] if r.random() < 0.3 else ([tuple(x) for x in P] if r.random() < 0.5 else np.array(P))
    p = OpenProf(nodes, t)
    q = check_profile(mon, p, P, T, kind)
    # principal axes
    (I1, I2), a = p.principal_axes()
    tr, dt = q["Iy"] + q["Iz"], q["Iy"] * q["Iz"] - q["Iyz"] ** 2
    mon.close("principal axes", [I1 + I2, I1 * I2], [tr, dt], 1e-8, 0, "principal moments")
    mon.ok("principal axes", I1 >= I2 > 0, "order of principal moments %r" % ((I1, I2),))
    if abs(q["Iz"] - q["Iy"]) > 1e-6 * tr:
        ca, sa = math.cos(a), math.sin(a)
        Iv = (q["Iz"] - q["Iy"]) / 2 * math.sin(2 * a) - q["Iyz"] * math.cos(2 * a)
        mon.close("principal axes", Iv, 0, 0, 1e-8 * tr, "product moment about principal axes, angle %g" % a)
    tags = []
    # transformations of the same section
    for _ in range(r.choice([1, 2])):
        k = r.choice(["move", "rotate", "reverse", "mirror", "scale"])
        th, f, o = 0.0, 1.0, np.zeros(2)
        R = np.eye(2)
        P2, T2 = [list(x) for x in P], list(T)
        if k == "move":
            o = np.array([r.uniform(-500, 500), r.uniform(-500, 500)])
        elif k == "rotate":
            th = r.uniform(-3, 3)
            R = np.array([[math.cos(th), -math.sin(th)], [math.sin(th), math.cos(th)]])
        elif k == "mirror":
            R = np.diag(r.choice([(-1, 1), (1, -1)]))
        elif k == "scale":
            f = r.uniform(0.2, 4)
        P2 = [list(f * (R @ np.array(x)) + o) for x in P]
        T2 = [f * x for x in T]
        if k == "reverse":
            P2, T2 = P2[::-1], T2[::-1]
        p2 = OpenProf(P2, np.array(T2))
        mon.close("invariance", [p2.area(), p2.torsion_constant()], [f ** 2 * p.area(), f ** 4 * p.torsion_constant()], 1e-9, 0, k)
        big = 1e-8 * q["A"] * (600 * (1 + f)) ** 2
        mon.close("invariance", p2.warping_constant(), f ** 6 * p.warping_constant(), 1e-4, f ** 6 * 1e-6 * q["A"] * q["h"] ** 4, k + ": warping constant")
        mon.close("invariance", p2.shear_center(), f * (R @ np.array(p.shear_center())) + o, 1e-5, 1e-4 * f * q["h"], k + ": shear centre")
        mon.close("invariance", sorted(p2.principal_axes()[0]), [f ** 4 * x for x in (I2, I1)], 1e-6, f ** 4 * big * 1e-3, k + ": principal moments")
        tags.append(k)
    # changes of the section itself
    for _ in range(r.choice([0, 1, 2, 3])):
        k = r.choice(["split", "split", "node", "node", "thickness"])
        i = r.randrange(len(T))
        if k == "split":
            s = r.uniform(0.05, 0.95)
            p.split_segment(i, s)
            new = [P[i][j] + s * (P[i + 1][j] - P[i][j]) for j in (0, 1)]
            P.insert(i + 1, new)
            T.insert(i, T[i])
            mon.ok("split", p.n == len(P) and len(p.segments) == len(T), "number of nodes after split")
            check_profile(mon, p, P, T, kind + " split", ("split",) * 5)
        elif k == "node":
            j = r.randrange(len(P))
            P[j] = [P[j][0] + r.uniform(-20, 20), P[j][1] + r.uniform(-20, 20)]
            p.nodes[j].y, p.nodes[j].z = P[j]
            check_profile(mon, p, P, T, kind + " with a moved node", ("changed nodes",) * 5)
        else:
            T[i] *= r.uniform(0.3, 2)
            p.segments[i].t = T[i]
            check_profile(mon, p, P, T, kind + " with another thickness", ("changed nodes",) * 5)
        tags.append(k)
    L = [math.hypot(b[0] - a[0], b[1] - a[1]) for a, b in zip(P[:-1], P[1:])]
    mon.close("area", [s.length() for s in p.segments], L, 1e-9, 1e-9, "lengths of segments")
    mon.close("area", [s.mid_point() for s in p.segments], [[(a[0] + b[0]) / 2, (a[1] + b[1]) / 2] for a, b in zip(P[:-1], P[1:])], 1e-9, 1e-7, "mid points")
    mon.nontrivial(("profile", kind, len(T), tuple(sorted(tags))))


# ------------------------------------------------------------------ C and Z sections
def arc(c, rr, a0, a1, n):
    return [[c[0] + rr * math.cos(a), c[1] + rr * math.sin(a)] for a in np.linspace(a0, a1, n)]


def centre_line(shape, h, a, b, ca, cb, tn, r, n):
    """Centre line from the bottom lip to the top lip; origin at mid-height of the web."""
    rm = r + tn / 2
    H = h - tn
    wt = a - (tn if ca else tn / 2)
    wb = b - (tn if cb else tn / 2)
    sb = -1 if shape == "Z" else 1
    q = math.pi / 2

    def half(s, w, c):
        """From the web (y=0, z going up to H/2) to the end of the flange at +y."""
        P = arc((rm, H / 2 - rm), rm, math.pi, q, n)
        if c:
            P += arc((w - rm, H / 2 - rm), rm, q, 0, n) + [[w, H / 2 - (c - tn / 2)]]
        else:
            P += [[w, H / 2]]
        return P
    top = half(1, wt, ca)
    bot = [[sb * y, -z] for y, z in half(1, wb, cb)]
    P = bot[::-1] + top
    out = [P[0]]
    for x in P[1:]:
        if math.hypot(x[0] - out[-1][0], x[1] - out[-1][1]) > 1e-9:
            out.append(x)
    return out


def w_sections(r, mon):
    quiet = contextlib.redirect_stdout(io.StringIO())
    shape = r.choice("CZ")
    secs = []
    for _ in range(r.choice([1, 1, 2])):
        tn = r.choice([1.0, 1.5, 2.0, 2.5, 3.0, r.uniform(0.8, 4)])
        rr = r.choice([2.0, 3.0, 4.0, r.uniform(0.5, 6)])
        h = r.choice([100, 150, 200, 250, 300, r.uniform(80, 400)])
        a, b = r.uniform(30, 100), r.uniform(30, 100)
        if r.random() < 0.3:
            b = a
        lip = lambda: r.choice([0, 0.0, r.uniform(12, 35), r.uniform(12, 35), r.uniform(12, 35)])
        ca, cb = lip(), lip()
        if r.random() < 0.3:
            cb = ca
        coat = r.choice([0.04, 0.04, 0.02, 0.0])
        gr_ = r.choice(["S350GD", "S280GD", "S355"])
        shape = r.choice("CZ")
        with quiet:
            if shape == "Z" and r.random() < 0.15:
                hh, tn = r.choice([(150, 1.5), (200, 2.0), (250, 2.5), (300, 2.0), (350, 3.0), (100, 1.2)])
                s = ruukki_z(hh, tn)
                h, a, b, ca, cb, rr, coat, gr_ = s.h, s.a, s.b, s.ca, s.cb, s.r, 0.04, "S350GD"
                want = {(150, 1.5): (46, 40, 18, 2), (200, 2.0): (71, 63, 26, 2), (250, 2.5): (72, 64, 26, 2), (300, 2.0): (90, 82, 26, 1), (350, 3.0): (92, 84, 30, 2), (100, 1.2): (45.4, 39.4, 18, 2)}[hh, tn]
                mon.close("section geometry", [h, a, b, ca, cb, rr], [hh, want[0], want[1], want[2], want[2], want[3]], 1e-12, 0, "Ruukki Z %d %g" % (hh, tn))
            elif r.random() < 0.1:
                s = (ZSection if shape == "Z" else CSection)(tn, h, a, b, ca, cb, 0, gr_, coat)
                rr = 1.5 * tn
            else:
                s = (ZSection if shape == "Z" else CSection)(tn, h, a, b, ca, cb, rr, gr_, coat)
        secs.append((s, shape, h, a, b, ca, cb, tn, rr, coat, gr_))
    mon.case([x[1:] for x in secs])
    for s, shape, h, a, b, ca, cb, tn, rr, coat, gr_ in secs:
        if min(a, b) - 2 * (rr + tn) < 1 or (ca and ca - rr - tn < 0.5) or (cb and cb - rr - tn < 0.5):
            raise vm.CaseSkip()
        t = tn - coat
        msg = "%s %gx%gx%g" % (shape, h, a, tn)
        P = centre_line(shape, h, a, b, ca, cb, tn, rr, 5)
        q = integ(P, [t] * (len(P) - 1))
        mon.close("section geometry", [s.A, s.prof.area()], [q["A"]] * 2, 1e-6, 0, msg + ": area")
        mon.close("section geometry", s.centroid(), q["c"], 1e-6, 1e-6 * h, msg + ": centroid")
        mon.close("section geometry", [s.Iy, s.Iz, s.Iyz], [q["Iy"], q["Iz"], q["Iyz"]], 1e-6, 1e-7 * q["Iz"], msg + ": second moments")
        mon.close("section geometry", s.It, q["It"], 1e-6, 0, msg + ": It")
        mon.close("section geometry", [s.Iw], [q["Iw"]], 1e-5, 1e-6 * q["A"] * h ** 4 * 1e-3, msg + ": Iw")
        mon.close("section geometry", s.shear_center, q["sc"], 1e-5, 1e-5 * h, msg + ": shear centre")
        # exact rounded centre line
        nb = 2 + (ca > 0) + (cb > 0)
        rm = rr + tn / 2
        hw = h - 2 * (rr + tn)
        ct = a - (rr + tn) * (2 if ca else 1)
        cbt = b - (rr + tn) * (2 if cb else 1)
        la, lb = (ca - rr - tn if ca else 0), (cb - rr - tn if cb else 0)
        L = hw + ct + cbt + la + lb + nb * math.pi / 2 * rm
        mon.close("section geometry", [s.Agross(), s.center_line_length(), s.t], [t * L, L, t], 1e-9, 0, msg + ": gross area")
        m = 7850e-9 * t * L * 1e3
        rho = Steel(gr_).rho
        mon.close("section geometry", [s.weight(), s.self_weight()], [rho * t * L, 9.81 * rho * t * L], 1e-9, 0, msg + ": weight")
        mon.close("section geometry", rho * 1e9, 7850, 1e-6, 0, "density")
        mon.close("section geometry", [s.hw, s.c_top, s.c_bottom, s.ca_straight, s.cb_straight], [hw, ct, cbt, la, lb], 1e-9, 1e-9, msg + ": straight parts")
        mon.ok("section geometry", bool(s.issymmetric()) == (a == b and ca == cb), msg + ": symmetry")
        # notional widths: between the points of the corners at half angle (5.1)
        g = rm * math.sin(math.radians(45))
        bw, bt, bb = hw + 2 * g, ct + g * (2 if ca else 1), cbt + g * (2 if cb else 1)
        bl = [la + g if la else 0, lb + g if lb else 0]
        mon.close("notional widths", [s.bp_w, s.bp_t, s.bp_b, s.bp_t_lip, s.bp_b_lip], [bw, bt, bb] + bl, 1e-9, 1e-9, msg + ": notional widths")
        mon.close("notional widths", s.gr, rm * (1 - math.sin(math.pi / 4)), 1e-9, 1e-9, msg + ": gr")
        mon.close("notional widths", s.bp_w + 2 * s.gr, h - tn, 1e-9, 0, msg + ": notional width and gr")
        fy, fu = Steel(gr_).fy, Steel(gr_).fu
        mon.close("average strength", s.fya, min(fy + (fu - fy) * 7 * nb * t * t / (t * L), 0.5 * (fy + fu)), 1e-9, 0, msg + ": average yield strength with %d bends" % nb)
        # effective widths
        eps = math.sqrt(235 / fy)
        psi = r.choice([1.0, 1e-9, -1.0, r.uniform(-2.5, 1), r.uniform(-1, 1)])
        k, rho_ = internal(bw, t, eps, psi)
        with quiet:
            s.effective_width_web(psi, verb=r.random() < 0.1)
        mon.close("local buckling", [s._rho_w, s._lambda_w, s._psi_w], [rho_, k, psi], 1e-4, 0, msg + ": web, psi=%g" % psi)
        for f, w, lip, bl_ in (("top", bt, ca, bl[0]), ("bottom", bb, cb, bl[1])):
            with quiet:
                s.effective_width_flange(1.0, f)
            got = [s._rho_t, s._lambda_t] if f == "top" else [s._rho_b, s._lambda_b]
            lam, rho_ = internal(w, t, eps, 1.0) if lip else outstand(w, t, eps, 0.43)
            mon.close("local buckling", got, [rho_, lam], 1e-6, 0, msg + ": %s flange, lip %g" % (f, lip))
            if lip and bl_ / w <= 0.6:
                with quiet:
                    s.effective_width_edge_stiffener(f)
                got = [s._rho_t_lip, s._lambda_t_lip] if f == "top" else [s._rho_b_lip, s._lambda_b_lip]
                x = bl_ / w
                ks = 0.5 if x <= 0.35 else 0.5 + 0.83 * ((x - 0.35) ** 2) ** (1 / 3)
                lam, rho_ = outstand(bl_, t, eps, ks)
                mon.close("local buckling", got, [rho_, lam], 1e-6, 0, msg + ": %s lip, ratio %g" % (f, x))
        # purlin
        Lm = r.uniform(1000, 12000)
        mem = CFSteelMember(s, Lm)
        E, G = 210e3, 81e3
        E, G = s.E, s.G
        mon.close("purlin", [E, G], [210e3, 80.77e3], 5e-3, 0, "elastic constants")
        pe = math.pi ** 2 / Lm ** 2
        want = (E * q["Iw"] * pe + G * q["It"] + E * q["Iz"] * pe * 0.25 * h * h) * 70 / h ** 2
        mon.close("purlin", mem.Sreq(), want, 1e-5, 0, msg + ": required shear stiffness")
        mon.nontrivial(("section", shape, ca > 0, cb > 0, a == b, round(psi), gr_))


def internal(b, t, eps, psi):
    if psi >= 0:
        k = 8.2 / (1.05 + psi) if psi < 1 else 4.0
    elif psi > -1:
        k = 7.81 - 6.29 * psi + 9.78 * psi ** 2
    else:
        k = 5.98 * (1 - psi) ** 2 if psi < -1 else 23.9
    lam = b / t / (28.4 * eps * math.sqrt(k))
    lim = 0.5 + math.sqrt(max(0.085 - 0.055 * psi, 0))
    return lam, (1.0 if lam <= lim else min(1.0, (lam - 0.055 * (3 + psi)) / lam ** 2))


def outstand(b, t, eps, k):
    lam = b / t / (28.4 * eps * math.sqrt(k))
    return lam, (1.0 if lam <= 0.748 else min(1.0, (lam - 0.188) / lam ** 2))


# ------------------------------------------------------------------ rules
def rwrd(fy, t, hw, ss, c, rr, phi, e, ff, ws):
    k = fy / 228
    x = ss / t
    k1, k2 = 1.33 - 0.33 * k, min(1.0, max(0.5, 1.15 - 0.15 * rr / t))
    k3, k4 = 0.7 + 0.3 * (phi / 90) ** 2, 1.22 - 0.22 * k
    k5 = min(1.0, 1.06 - 0.06 * rr / t)
    R = t * t * fy
    H = hw / t
    near = c <= 1.5 * hw
    if not ws:
        if not e:
            if near:
                if ff:
                    return k1 * k2 * k3 * (9.04 - H / 60) * (1 + 0.01 * x) * R
                return k1 * k2 * k3 * (5.92 - H / 132) * ((1 + 0.01 * x) if x <= 60 else (0.71 + 0.015 * x)) * R
            return k3 * k4 * k5 * (14.7 - H / 49.5) * ((1 + 0.007 * x) if x <= 60 else (0.75 + 0.011 * x)) * R
        if near:
            return k1 * k2 * k3 * (6.66 - H / 64) * (1 + 0.01 * x) * R
        return k3 * k4 * k5 * (21.0 - H / 16.3) * (1 + 0.0013 * x) * R
    if not e:
        if near:
            return (1 + H / 750 if H < 150 else 1.2) * (8.8 + 1.1 * math.sqrt(x)) * R
        return max(0.6, 1.49 - 0.53 * k) * (0.88 - 0.12 * t / 1.9) * (13.2 + 2.87 * math.sqrt(x)) * R
    if near:
        return (0.98 - H / 865) / k * (0.64 + 0.31 * t / 1.9) * (8.8 + 1.1 * math.sqrt(x)) * R
    return (1 if H < 66.5 else 1.1 - H / 665) / k * (0.82 + 0.15 * t / 1.9) * (13.2 + 2.87 * math.sqrt(x)) * R


def w_transverse(r, mon):
    fy = r.choice([220, 250, 280, 320, 350, r.uniform(200, 420)])
    t = r.choice([r.uniform(0.6, 3), 1.96, 0.96])
    hw = t * r.choice([r.uniform(20, 200), 66.5 - 1e-9, 66.5 + 1e-9, 150 - 1e-9, 150 + 1e-9])
    ss = r.choice([10.0, t * r.uniform(5, 120), t * 60, t * 60 + 1e-9])
    c = hw * r.choice([0.0, 1.5 - 1e-9, 1.5 + 1e-9, r.uniform(0, 3)])
    rr = t * r.choice([r.uniform(0.3, 6), 1.0])
    phi = r.choice([90, r.uniform(45, 90), 45])
    e = r.choice([0.0, 0.0, r.uniform(0.1, 1.5) * hw])
    ff, ws = r.random() < 0.5, r.random() < 0.4
    mon.case(dict(fy=fy, t=t, hw=hw, ss=ss, c=c, r=rr, phi=phi, e=e, flange=ff, web=ws))
    got = p3.RwRd(fy, t, hw, ss, c, rr, phi, e, ff, ws)
    mon.close("transverse", got, rwrd(fy, t, hw, ss, c, rr, phi, e, ff, ws), 1e-9, 0, "RwRd hw/t=%g ss/t=%g c/hw=%g e=%g %s %s" % (hw / t, ss / t, c / hw, e, ff, ws))
    mon.ok("relations", p3.RwRd(fy, t, hw, ss * 1.1, c, rr, phi, e, ff, ws) > got * (1 - 1e-12), "a longer bearing resists less")
    if not ws:
        mon.ok("relations", p3.RwRd(fy, t, hw, ss, c, rr, phi * 0.9, e, ff, ws) < got, "a slanted web resists more")
        mon.ok("relations", p3.RwRd(fy, t, hw, ss, c, rr * 2, phi, e, ff, ws) <= got * (1 + 1e-12), "a larger radius resists more")
    # two or more webs (6.1.7.3)
    rr = t * r.uniform(0.5, 9)
    phi = r.uniform(45, 90)
    hw = r.uniform(30, 250)
    ss = r.choice([r.uniform(10, 200), r.uniform(10, 350), 200.0])
    code = r.choice(["old", "new"])
    V = sorted([r.uniform(0, 100), r.uniform(1, 100)], key=abs)[::-1]
    if r.random() < 0.3:
        u = r.choice([0.2, 0.3, r.uniform(0.2, 0.3)]) + r.choice([0, 1e-6, -1e-6])
        V = [1 + u, 1 - u]
    b = (abs(V[0]) - abs(V[1])) / (abs(V[0]) + abs(V[1]))
    V = [V[0] * r.choice([-1, 1]), V[1] * r.choice([-1, 1])]
    kind = r.choice(["e near", "c near", "c far", "e far", "internal"])
    kw = dict()
    x = hw * r.choice([1.5, 0.0, r.uniform(0, 1.5)]) if "near" in kind else hw * r.uniform(1.51, 4)
    if kind != "internal":
        kw[kind[0]] = x
    cat = 1 if "near" in kind else 2
    if cat == 2 or r.random() < 0.3:
        kw["VEd"] = V
    if cat == 1:
        la = 10.0
        a = 0.075
        if code == "new" and kind[0] == "c":
            a = min(0.18 * math.sqrt((x + ss) / 1.5 / hw), 0.15)
        elif code == "new" and x == 0:
            raise vm.CaseSkip()
    else:
        a = 0.15
        la = min(200, ss)
        if code == "old":
            la = ss if b <= 0.2 else (10.0 if b >= 0.3 else ss + (10 - ss) * (b - 0.2) / 0.1)
            la = min(la, 200)
    want = a * t * t * math.sqrt(fy * 210000) * (1 - 0.1 * math.sqrt(rr / t)) * (0.5 + math.sqrt(0.02 * la / t)) * (2.4 + (phi / 90) ** 2)
    with contextlib.redirect_stdout(io.StringIO()):
        got = p3.RwRd_two_webs(fy, rr, t, phi, hw, ss, verb=r.random() < 0.1, code=code, **kw)
    tol = 1e-9 if min(abs(b - 0.2), abs(b - 0.3)) > 1e-12 else 1e-6
    mon.close("two webs", got, want, tol, 0, "two webs %s %s beta_V=%g" % (kind, code, b))
    mon.nontrivial(("transverse", ff, ws, bool(e), c <= 1.5 * hw, ss / t > 60, hw / t > 66.5, kind, code, b <= 0.2, b >= 0.3))


def w_rules(r, mon):
    # screws (Table 8.2)
    d = r.choice([3.0, 4.2, 4.8, 5.5, 6.3, 8.0, r.uniform(3, 8)])
    t = r.choice([r.uniform(0.4, 3), 1.0, 0.96, r.uniform(0.9, 1.1)])
    t1 = t * r.choice([1.0, 2.5, 2.5 + 1e-9, r.uniform(1, 2.5), r.uniform(2.5, 8)])
    fu = r.uniform(300, 510)
    mon.case(dict(d=d, t=t, t1=t1, fu=fu))
    al = min(3.2 * math.sqrt(t / d), 2.1)
    if t1 >= 2.5 * t:
        a = al if t < 1.0 else 2.1
    else:
        hi = al if t < 1.0 else 2.1
        a = al + (hi - al) * (t1 - t) / (1.5 * t)
    with contextlib.redirect_stdout(io.StringIO()):
        F, got = p3.screw_bearing_resistance(fu, d, t, t1, verb=r.random() < 0.1)
    mon.close("screws", [got, F], [a, a * fu * d * t / 1.25], 1e-9, 0, "bearing t=%g t1/t=%g d=%g" % (t, t1 / t, d))
    A = r.uniform(10, 500)
    mon.close("screws", p3.screw_net_secton_resistance(A, fu), A * fu / 1.25, 1e-9, 0, "net section")
    T = {"hardened": {4.8: 5200, 5.5: 7200, 6.3: 9800, 8.0: 16300}, "stainless": {4.8: 4600, 5.5: 6500, 6.3: 8500, 8.0: 14300}}
    m, dd = r.choice(sorted(T)), r.choice([4.8, 5.5, 6.3, 8.0])
    mon.close("screws", p3.screw_shear_resistance_fin(dd, m), T[m][dd], 0, 0, "shear %s" % m)
    lim = [3 * d, 1.5 * d, 3 * d, 3 * d]
    for k in range(6):
        x = [v * r.choice([1.0 + 1e-9, 1.2, 1.01]) for v in lim]
        dk, want = d, True
        if k < 4:
            x[k] *= r.choice([0.97, 0.5, 0.8]) / 1.2
            want = False
        elif k == 4:
            dk = r.choice([2.9, 8.1])
            x = [v * 10 for v in x]
            want = False
        mon.ok("screws", bool(p3.screw_validity(*x, dk, t, t1)) == want, "validity of %s with d=%g" % (x, dk))
    # average strength, notional width, rounding
    fyb, fu = r.uniform(220, 420), r.uniform(430, 550)
    A, n, tt = r.uniform(100, 3000), r.randrange(0, 9), r.uniform(0.5, 6)
    for kf in (7, 5):
        mon.close("average strength", p3.fya(fyb, fu, tt, A, n, kf) if kf == 5 else p3.fya(fyb, fu, tt, A, n), min(fyb + (fu - fyb) * kf * n * tt ** 2 / A, (fu + fyb) / 2), 1e-9, 0, "fya")
    m = r.choice([1, 2, 3])
    rm, ph = [r.uniform(1, 10) for _ in range(m)], [r.uniform(20, 120) for _ in range(m)]
    b = r.uniform(10, 200)
    mon.close("notional widths", p3.notional_width(b, rm, ph), b + sum(x * math.sin(math.radians(y / 2)) for x, y in zip(rm, ph)), 1e-9, 0, "notional width")
    bp = [r.uniform(10, 200) for _ in range(m + 1)]
    mon.close("notional widths", p3.rounding_factor(rm, ph, bp), 0.43 * sum(x * y / 90 for x, y in zip(rm, ph)) / sum(bp), 1e-9, 0, "delta")
    ri, v = r.uniform(0.5, 8), r.uniform(10, 60)
    mon.close("notional widths", p3.gr(ri, tt, v), (ri + tt / 2) * (math.tan(math.radians(v)) - math.sin(math.radians(v))), 1e-9, 0, "gr")
    # distortional buckling
    lam = r.choice([0.65 - 1e-9, 0.65 + 1e-9, 1.38 - 1e-9, 1.38 + 1e-9, r.uniform(0.1, 3)])
    chi = p3.distortional_buckling_reduction_factor(lam)
    mon.close("reduction", chi, 1.0 if lam <= 0.65 else (1.47 - 0.723 * lam if lam <= 1.38 else 0.66 / lam), 1e-9, 0, "chi_d at %g" % lam)
    x = r.choice([r.uniform(0.05, 0.6), 0.35, 0.35 + 1e-9, 0.6])
    mon.close("reduction", p3.buckling_factor_edge_stiffener(x), 0.5 if x <= 0.35 else 0.5 + 0.83 * (x - 0.35) ** (2 / 3), 1e-9, 1e-9, "k_sigma at %g" % x)
    Is, As, K = r.uniform(100, 1e5), r.uniform(10, 300), r.uniform(0.01, 5)
    mon.close("reduction", p3.distortional_buckling_stress(Is, As, 210e3, K), 2 * math.sqrt(K * 210e3 * Is) / As, 1e-9, 0, "critical stress")
    # shear stiffness of sheeting (10.1b)
    ts, s, hw, br = r.uniform(0.4, 1.5), r.uniform(500, 4000), r.uniform(18, 160), r.uniform(3e3, 6e4)
    mon.close("sheeting", p3.sheeting_shear_stiffness(ts, s, hw, br), 1000 * ts ** 1.5 * (50 + 10 * br ** (1 / 3)) * s / hw, 1e-9, 0, "shear stiffness")
    # rotational restraint (10.17)
    ba = r.choice([r.uniform(40, 199), 125.0, 125 + 1e-9])
    tn = r.choice([0.75, 1.0, r.uniform(0.75, 1), r.uniform(1, 1.5), 1.2])
    pos, load = r.choice(["pos", "neg"]), r.choice(["gravity", "uplift"])
    if load == "uplift" and r.random() < 0.3:
        tn = r.uniform(0.5, 0.75)
    A, bT, bR = r.uniform(1, 12), r.uniform(20, 200), r.choice([r.uniform(100, 350), 185, 185 + 1e-9])
    p = (1.1 if pos == "pos" else 1.5) if tn >= 0.75 else 1.5
    w = (ba / 100) ** 2 if ba <= 125 else 1.25 * ba / 100
    w *= (tn / 0.75) ** p * (1 if bR <= 185 else 185 / bR)
    kA = 1.0
    if load == "gravity":
        lo = 0.08 if pos == "pos" else 0.16
        kA = 1 + (A - 1) * (lo + (0.095 - lo) * (min(tn, 1.0) - 0.75) / 0.25)
    bm, C = {("gravity", "pos"): (40, 5.2), ("gravity", "neg"): (120, 3.1)}.get((load, pos), (40, 2.6))
    w *= kA * C * (math.sqrt(bm / bT) if bT > bm else 1)
    mon.close("purlin restraint", p3.CD_A(ba, tn, pos, A, bT, bR, load), w, 1e-9, 0, "CD,A ba=%g t=%g %s %s bT=%g bR=%g" % (ba, tn, pos, load, bT, bR))
    if load == "gravity" and r.random() < 0.3:
        mon.close("purlin restraint", p3.CD_A(ba, tn, pos, A, bT, bR), w, 1e-9, 0, "CD,A default load")
    # trapezoidal sheeting
    tn, h, bt, bb, an, nt = r.uniform(0.5, 1.5), r.uniform(20, 160), r.uniform(20, 150), r.uniform(20, 150), r.uniform(45, 89), r.choice([2, 3, 4, 5])
    sh = TrapezoidalSheet(tn, h, bt, bb, an, ntroughs=nt)
    for k in range(2):
        H, t, q = h - tn, tn - 0.04, math.radians(an)
        sw = H / math.sin(q)
        mon.close("sheeting", [sh.t, sh.hw, sh.sw], [t, H, sw], 1e-9, 0, "sheet web")
        mon.close("sheeting", sh.pitch, bt + bb + 2 * math.sqrt(sw ** 2 - H ** 2), 1e-9, 0, "pitch")
        mon.close("sheeting", [sh.width, sh.A], [nt * sh.pitch, nt * t * (bt + bb + 2 * sw)], 1e-9, 0, "width and area")
        mon.ok("sheeting", sh.sw >= sh.hw and sh.A / t >= sh.width, "developed width less than the width")
        h, bt, bb, nt = h * r.uniform(0.8, 1.3), bt * r.uniform(0.8, 1.2), bb * r.uniform(0.8, 1.2), nt + 1
        sh.h, sh.bt, sh.bb, sh.ntrough = h, bt, bb, nt
    mon.nontrivial(("rules", pos, load, tn >= 1, t1 >= 2.5 * t, t < 1, bT > bm, bR > 185, ba > 125, lam > 0.65, lam > 1.38))


WORKLOADS = {
    "profile": (w_profile, 500, 20000),
    "sections": (w_sections, 250, 8000),
    "transverse": (w_transverse, 500, 20000),
    "rules": (w_rules, 300, 10000),
}

if __name__ == "__main__":
    vm.main(globals())
