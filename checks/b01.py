"""B01: bolts, T-stubs and bolted end plate joints of EN 1993-1-8."""
import os, sys, math, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vm
from metku.eurocodes.en1993.en1993_1_8 import en1993_1_8 as S
from metku.eurocodes.en1993.en1993_1_8 import component_method as cm
from metku.structures.steel.end_plate_joint import EndPlateJoint
from metku.sections.steel.ISection import IPE, HEA, HEB
from metku.materials.steel_data import Steel
from metku.cost.cost_data import bolt_unit_cost_full_thread as FT, bolt_unit_cost_part_thread as PT

PROPERTY = "B01"
RULE = ("one case is either a set of random bolts (size, class, length; sizes changed repeatedly) and plates, random arguments of the component formulas, or a random bolted end plate joint (rolled column and beam, plate narrower or wider than the column, extended or flush, 1-5 tension rows and 0-2 shear rows, "
        "all contiguous row groups, stiffeners, transformation parameter, column force) followed by random changes of dimensions, bolts, row types and stiffeners with the results queried in random order; "
        "all are compared with EN 1993-1-8 Tables 3.4, 6.2-6.6, 6.11 and 6.2-6.3 evaluated from the dimensions. Non-trivial: distinct (governing component, mode, number of rows, kind of change, stiffeners).")
MONITORS = ["bolt shear", "bolt tension", "bearing", "punching and block", "combined", "bolt size", "bolt length", "weld throat",
            "web reduction", "web components", "stiffness factors", "alpha", "stiffness ratio", "stiffener",
            "row resistance", "group resistance", "row force", "moment resistance", "shear resistance", "compression side", "row stiffness", "lever arm", "initial stiffness", "rotational stiffness", "geometry", "equilibrium bounds"]

FUB = {4.6: 400, 4.8: 400, 5.6: 500, 5.8: 500, 6.8: 600, 8.8: 800, 10.9: 1000}
AS = {12: 84.3, 16: 157.0, 20: 245.0, 24: 353.0, 30: 561.0, 36: 817.0}
HEAD = {12: 7.5, 16: 10.0, 20: 12.5, 24: 15, 30: 18.7, 36: 22.5}
NUT = {12: 10.8, 16: 14.8, 20: 18.0, 24: 21.5, 30: 25.6, 36: 31.0}
WASH = {12: 2.5, 16: 3.0, 20: 3.0, 24: 4.0, 30: 4.0, 36: 5.0}
G2 = 1.25
R2 = math.sqrt(2)


def hole(d):
    return d + (1 if d < 16 else 2 if d < 27 else 3)


def bolt_length(d, L):
    for tab, typ in ((PT, "Partial thread"), (FT, "Full thread")):
        ks = [k for k in tab if k != "max" and k >= L and tab[k][d] != "N/A"]
        if ks:
            return min(ks), typ
    return None, "Full thread"


def FtRd(d, c, k2=0.9):
    return k2 * FUB[c] * AS[d] / G2


def FvRd(d, c, threads=True):
    av = 0.5 if threads and c in (4.8, 5.8, 6.8, 10.9) else 0.6
    return av * FUB[c] * (AS[d] if threads else math.pi * d * d / 4) / G2


def check_bolt(mon, b, d, c, L, r):
    mon.close("bolt size", [b.d, b.size, b.d0, b.As, b.A, b.head_t, b.nut_t, b.washer_t, b.fub], [d, d, hole(d), AS[d], math.pi * d * d / 4, HEAD[d], NUT[d], WASH[d], FUB[c]], 1e-9, 0, "properties of bolt M%d" % d)
    ln, typ = bolt_length(d, L)
    if ln is not None:
        mon.ok("bolt length", b.length == ln and b.bolt_type == typ, "M%d, at least %g mm: %r %r, expected %r %r" % (d, L, b.length, b.bolt_type, ln, typ))
    else:
        mon.ok("bolt length", b.length >= L - 1e-9, "M%d length %r shorter than requested %g" % (d, b.length, L))
    for th in (True, False):
        mon.close("bolt shear", b.shear_resistance(th), FvRd(d, c, th), 1e-9, 0, "FvRd M%d %s threads %s" % (d, c, th))
    mon.close("bolt tension", b.tension_resistance(), FtRd(d, c), 1e-9, 0, "FtRd")
    mon.close("bolt tension", b.tension_resistance(0.63), FtRd(d, c, 0.63), 1e-9, 0, "FtRd countersunk")


def bearing(d, c, fu, t, e, p, perp, load):
    d0 = hole(d)
    ad = e[0] / 3 / d0 if load == "edge" else p[0] / 3 / d0 - 0.25
    k1 = min([2.5, 1.4 * p[1] / d0 - 1.7] + ([2.8 * e[1] / d0 - 1.7] if perp == "edge" else []))
    return k1 * min(ad, FUB[c] / fu, 1.0) * fu * d * t / G2


def w_bolts(r, mon):
    d, c = r.choice(sorted(AS)), r.choice(sorted(FUB))
    L = r.choice([r.uniform(15, 200), r.uniform(200, 300), float(r.choice(S.bolt_lengths)), 310.0])
    mon.case(dict(d=d, c=c, L=L))
    b = S.Bolt(d, c, L)
    check_bolt(mon, b, d, c, L, r)
    for _ in range(r.randrange(4)):
        d = r.choice(sorted(AS))
        b.size = d
        check_bolt(mon, b, d, c, L, r)
    d0 = hole(d)
    fu, t = r.choice([360, 430, 510, 550]), r.uniform(4, 40)
    e = [r.uniform(1.2, 4) * d0, r.uniform(1.2, 3) * d0]
    p = [r.uniform(2.2, 5) * d0, r.uniform(2.4, 5) * d0]
    perp, load = r.choice(["edge", "inner"]), r.choice(["edge", "inner"])
    mon.close("bearing", b.bearing_resistance(fu, t, e, p, perp, load), bearing(d, c, fu, t, e, p, perp, load), 1e-9, 0, "FbRd %s %s" % (perp, load))
    if perp == "inner" or 1.4 * p[1] / d0 - 1.7 >= min(2.5, 2.8 * e[1] / d0 - 1.7):
        mon.close("bearing", S.bolt_bearing_resistance(FUB[c], fu, d, t, e, p, d0, perp, load), bearing(d, c, fu, t, e, p, perp, load), 1e-9, 0, "function FbRd %s %s" % (perp, load))
    for th in (True, False):
        A = r.uniform(50, 900)
        mon.close("bolt shear", S.bolt_shear_resistance(FUB[c], A, c, th), (0.5 if th and c in (4.8, 5.8, 6.8, 10.9) else 0.6) * FUB[c] * A / G2, 1e-9, 0, "function FvRd %s %s" % (c, th))
    k2 = r.choice([0.9, 0.63])
    mon.close("bolt tension", S.bolt_tension_resistance(FUB[c], AS[d], k2), FtRd(d, c, k2), 1e-9, 0, "function FtRd")
    dm = r.uniform(15, 60)
    mon.close("punching and block", S.bolt_punching_shear_resistance(dm, t, fu), 0.6 * math.pi * dm * t * fu / G2, 1e-9, 0, "BpRd")
    fy, Ant, Anv = r.uniform(200, 500), r.uniform(100, 3000), r.uniform(100, 5000)
    conc = r.random() < 0.5
    mon.close("punching and block", S.block_tearing(fy, fu, Ant, Anv, conc), (1 if conc else 0.5) * fu * Ant / G2 + fy / math.sqrt(3) * Anv, 1e-9, 0, "Veff")
    a, bb, cc, dd = [r.uniform(1, 100) for _ in range(4)]
    mon.close("combined", S.shear_and_tension_resistance(a, bb, cc, dd), a / bb + cc / dd / 1.4, 1e-9, 0, "shear and tension")
    g = r.choice(["S235", "S275", "S355", "S420", "S460M", "S460Q"])
    m = Steel(g)
    beta = {"S235": 0.8, "S275": 0.85, "S355": 0.9}.get(g, 1.0)
    mon.close("weld throat", [S.full_strength_weld_throat(m), S.full_strength_weld_tube(m)], [beta * G2 * m.fy / m.fu / R2, 2 * beta * G2 * m.fy / m.fu / R2], 1e-9, 0, "throat %s" % g)
    mon.nontrivial((d, c, perp, load))


# ---------------------------------------------------------------- components
def omega(beta, b, t, A):
    w1 = 1 / math.sqrt(1 + 1.3 * (b * t / A) ** 2)
    w2 = 1 / math.sqrt(1 + 5.2 * (b * t / A) ** 2)
    if beta <= 0.5:
        return 1.0
    if beta <= 1:
        return w1 + 2 * (1 - beta) * (1 - w1)
    return w1 + (beta - 1) * (w2 - w1)


def web_comp(col, beam, tp, ebot, a, beta, sig):
    """col, beam: profile objects used for their dimensions only"""
    sp = min(2 * tp, tp + ebot - R2 * a)
    b = beam.tf + 2 * R2 * a + 5 * (col.tf + col.r) + sp
    dw = col.h - 2 * col.tf - 2 * col.r
    A = av(col)
    lam = 0.932 * math.sqrt(b * dw * col.fy / 210e3 / col.tw ** 2)
    rho = 1.0 if lam <= 0.72 else (lam - 0.2) / lam ** 2
    k = 1.0 if sig <= 0.7 * col.fy else 1.7 - sig / col.fy
    return min(1.0, rho) * omega(beta, b, col.tw, A) * k * b * col.tw * col.fy, b


def av(s):
    A = 2 * s.tf * s.b + (s.h - 2 * s.tf) * s.tw + (4 - math.pi) * s.r ** 2
    return A - 2 * s.b * s.tf + (s.tw + 2 * s.r) * s.tf


def stiff_res(col, b, h, t, fy):
    e = math.sqrt(235 / col.fy)
    As = (30 * e * col.tw + t) * col.tw + 2 * b * t
    I = (2 * b + col.tw) ** 3 * t / 12
    lam = h / math.sqrt(I / As) / (93.9 * e)
    if lam <= 0.2:
        c = 1.0
    else:
        phi = 0.5 * (1 + 0.49 * (lam - 0.2) + lam * lam)
        c = min(1.0, 1 / (phi + math.sqrt(phi * phi - lam * lam)))
    return c * As * fy


def fig611(l1, l2):
    """root of the curve of Fig. 6.11 between alpha 4.45 and 8, None if there is none"""
    def f(a):
        l1lim = 1.25 / (a - 2.75)
        l2lim = 0.5 * a * l1lim
        if l2 > l2lim:
            return None
        return l1lim + (1 - l1lim) * ((l2lim - l2) / l2lim) ** (0.185 * a ** 1.785) - l1
    lo, hi = 4.45, 8.0
    flo, fhi = f(lo), f(hi)
    if flo is None or fhi is None or flo * fhi > 0:
        return None
    for _ in range(200):
        mid = 0.5 * (lo + hi)
        fm = f(mid)
        if fm is None:
            return None
        if flo * fm <= 0:
            hi = mid
        else:
            lo, flo = mid, fm
    return 0.5 * (lo + hi)


def alpha_new(e, m, m2):
    return min(max(4 + 1.67 * e / m * (m / m2) ** 0.67, 4 + 1.25 * e / m), 8.0)


def alpha_col(e, m, m2):
    a = fig611(m / (m + e), m2 / (m + e))
    return alpha_new(e, m, m2) if a is None else a


COLS = [(HEA, x) for x in (140, 160, 180, 200, 220, 240, 260, 280, 300, 320, 340, 360, 400, 450, 500)] + [(HEB, x) for x in (140, 160, 180, 200, 220, 240, 260, 280, 300, 320, 340, 400, 500)]
BEAMS = [(IPE, x) for x in (160, 180, 200, 220, 240, 270, 300, 330, 360, 400, 450, 500, 550, 600)] + [(HEA, x) for x in (160, 200, 240, 300)]


def w_components(r, mon):
    K, x = r.choice(COLS)
    col = K(x, fy=r.choice([235, 275, 355]))
    K, x = r.choice(BEAMS)
    beam = K(x, fy=r.choice([235, 275, 355]))
    beta = r.choice([0.0, r.uniform(0, 0.5), 0.5, r.uniform(0.5, 1), 1.0, r.uniform(1, 2), 2.0])
    b = r.uniform(30, 400)
    mon.case(dict(col=repr(col), beam=repr(beam), beta=beta, b=b))
    A = av(col)
    mon.close("web reduction", cm.min_coeff_w(beta, b, col.tw, A), omega(beta, b, col.tw, A), 1e-9, 0, "omega at beta %g" % beta)
    mon.ok("web reduction", cm.min_coeff_w(min(2.0, beta + 0.1), b, col.tw, A) <= cm.min_coeff_w(beta, b, col.tw, A) + 1e-9, "omega grows with beta %g" % beta)
    mon.close("web components", cm.col_web_shear(col), 0.9 * col.fy * A / math.sqrt(3), 1e-6, 0, "column web in shear")
    mon.close("web components", cm.column_web_tension(col, b, beta), omega(beta, b, col.tw, A) * b * col.tw * col.fy, 1e-6, 0, "column web in tension")
    mon.close("web components", cm.beam_web_tension(beam, b), b * beam.tw * beam.fy, 1e-9, 0, "beam web in tension")
    tp, eb, a = r.uniform(6, 40), r.uniform(10, 60), r.uniform(3, 12)
    sig = r.choice([0.0, r.uniform(0, 0.7), r.uniform(0.7, 1.0)]) * col.fy
    F, be = cm.col_web_trv_comp(col, beam, tp, eb, a, beta, sig)
    wF, wb = web_comp(col, beam, tp, eb, a, beta, sig)
    mon.close("web components", [F, be], [wF, wb], 1e-6, 0, "column web in compression")
    dw = col.h - 2 * col.tf - 2 * col.r
    z, m = r.uniform(100, 600), r.uniform(10, 60)
    bz = beta or 1.0
    mon.close("stiffness factors", [cm.col_web_shear_k(col, bz, z), cm.col_web_trv_comp_k(col, b), cm.column_web_tension_k(col, b), cm.column_flange_bending_k(col, b, m), cm.end_plate_bending_k(tp, b, m), cm.bolt_row_tension_k(A, z)],
              [0.38 * A / bz / z, 0.7 * b * col.tw / dw, 0.7 * b * col.tw / dw, 0.9 * b * (col.tf / m) ** 3, 0.9 * b * (tp / m) ** 3, 1.6 * A / z], 1e-6, 0, "stiffness factors")
    e, m2 = r.uniform(0.3, 3) * m, r.uniform(0.3, 3) * m
    mon.close("alpha", cm.new_alpha(e, m, m2), alpha_new(e, m, m2), 1e-9, 0, "alpha e %g m %g m2 %g" % (e, m, m2))
    want = fig611(m / (m + e), m2 / (m + e))
    if want is not None and 4.5 < want < 7.95:
        mon.close("alpha", cm.find_alpha(m / (m + e), m2 / (m + e)), want, 1e-4, 0, "alpha of Fig. 6.11")
    q = r.choice([r.uniform(0, 0.66), r.uniform(0.67, 1.0), 1.0])
    mon.close("stiffness ratio", S.stiffness_ratio(q), 1.0 if q <= 2 / 3 else (1.5 * q) ** 2.7, 1e-9, 0, "mu at %g" % q)

    class P:
        pass
    pl = P()
    pl.b, pl.h, pl.t = r.uniform(40, 150), r.choice([r.uniform(100, 600), r.uniform(600, 4000)]), r.uniform(5, 25)
    pl.material = Steel(r.choice(["S235", "S355"]))
    mon.close("stiffener", cm.col_web_trv_comp_stiffened(col, pl), stiff_res(col, pl.b, pl.h, pl.t, pl.material.fy), 1e-6, 0, "stiffened web in compression")
    mon.nontrivial((type(col).__name__, beta <= 0.5, beta > 1, sig > 0.7 * col.fy))


# -------------------------------------------------------------------- joint
class Ref:
    """end plate joint evaluated from its dimensions"""

    def __init__(s):
        s.stiff = {"col_top_flange": None, "col_bottom_flange": None}
        s.beta = 1.0
        s.wf = s.ww = 5
        s.NEd = 0.0

    # geometry
    @property
    def w(s):
        return s.bp - 2 * s.e

    def ecol(s):
        return s.e + 0.5 * (s.col.b - s.bp)

    def emin(s):
        return min(s.e, s.ecol())

    def mcol(s):
        return 0.5 * (s.w - s.col.tw) - 0.8 * s.col.r

    def outside(s, i):
        return s.ext and i == 0

    def mplate(s, i):
        if s.outside(i):
            return s.z[i] - 0.5 * s.beam.h - 0.8 * R2 * s.wf
        return 0.5 * (s.w - s.beam.tw) - 0.8 * R2 * s.ww

    def ex(s, i):
        return 0.5 * s.beam.h + s.etop - s.z[i]

    def m2(s, i):
        return 0.5 * s.beam.h - s.beam.tf - 0.8 * R2 * s.wf - s.z[i]

    def m2st(s, i):
        t, a = s.stiff["col_top_flange"]["t"], s.stiff["col_top_flange"]["a"]
        c = 0.5 * s.beam.h - 0.5 * s.beam.tf
        sg = 1 if s.z[i] > 0.5 * s.beam.h else -1
        return sg * (s.z[i] - (c + sg * (0.5 * t + 0.8 * R2 * a)))

    def tension(s):
        return [i for i in range(len(s.z)) if s.typ[i] == "t"]

    def adjacent(s, i):
        return s.stiff["col_top_flange"] is not None and s.ext and i in (0, 1)

    # effective lengths: (cp, nc)
    def leff_col(s, i):
        m, e = s.mcol(), s.ecol() if s.bp < s.col.b else s.emin()
        if s.adjacent(i):
            return 2 * math.pi * m, alpha_col(e, m, s.m2st(i)) * m
        return 2 * math.pi * m, 4 * m + 1.25 * e

    def leff_col_g(s, i, grp):
        m, e = s.mcol(), s.ecol() if s.bp < s.col.b else s.emin()
        k = grp.index(i)
        if 0 < k < len(grp) - 1:
            p = 0.5 * (s.z[grp[k - 1]] - s.z[grp[k + 1]])
            return 2 * p, p
        p = s.z[grp[0]] - s.z[grp[1]] if k == 0 else s.z[grp[-2]] - s.z[grp[-1]]
        if s.adjacent(i):
            return math.pi * m + p, 0.5 * p + alpha_col(e, m, s.m2st(i)) * m - (2 * m + 0.625 * e)
        return math.pi * m + p, 2 * m + 0.625 * e + 0.5 * p

    def leff_pl(s, i):
        m, e = s.mplate(i), s.e
        if s.outside(i):
            ex = s.ex(i)
            return (min(2 * math.pi * m, math.pi * m + s.w, math.pi * m + 2 * e),
                    min(4 * m + 1.25 * ex, e + 2 * m + 0.625 * ex, 0.5 * s.bp, 0.5 * s.w + 2 * m + 0.625 * ex))
        if i == (1 if s.ext else 0):
            return 2 * math.pi * m, alpha_new(e, m, s.m2(i)) * m
        return 2 * math.pi * m, 4 * m + 1.25 * e

    def leff_pl_g(s, i, grp):
        m, e = s.mplate(i), s.e
        k = grp.index(i)
        if 0 < k < len(grp) - 1:
            p = 0.5 * (s.z[grp[k - 1]] - s.z[grp[k + 1]])
            return 2 * p, p
        p = s.z[grp[0]] - s.z[grp[1]] if k == 0 else s.z[grp[-2]] - s.z[grp[-1]]
        if i == (1 if s.ext else 0):
            return math.pi * m + p, 0.5 * p + alpha_new(e, m, s.m2(i)) * m - (2 * m + 0.625 * e)
        return math.pi * m + p, 2 * m + 0.625 * e + 0.5 * p

    def tstub(s, cp, nc, t, fy, m, n, nb):
        l1, l2 = min(cp, nc), nc
        F3 = nb * FtRd(s.d, s.cls)
        F = [4 * 0.25 * l1 * t * t * fy / m, (2 * 0.25 * l2 * t * t * fy + n * F3) / (m + n), F3]
        k = F.index(min(F))
        return F[k], (l1 if k == 0 else l2), k

    def webten(s, b):
        return omega(s.beta, b, s.col.tw, av(s.col)) * b * s.col.tw * s.col.fy

    def row(s, i):
        m = s.mcol()
        F, l, k1 = s.tstub(*s.leff_col(i), s.col.tf, s.col.fy, m, min(s.emin(), 1.25 * m), 2)
        out = {"column flange": F, "column web": s.webten(l)}
        m = s.mplate(i)
        n = min(s.ex(i) if s.outside(i) else s.emin(), 1.25 * m)
        F, l, k2 = s.tstub(*s.leff_pl(i), s.tp, s.pfy, m, n, 2)
        out["end plate"] = F
        if not s.outside(i):
            out["beam web"] = l * s.beam.tw * s.beam.fy
        c = min(out, key=out.get)
        return out[c], c, k1, k2

    def group(s, grp):
        out = {}
        nb = 2 * len(grp)
        if not (s.adjacent(grp[0]) and s.outside(grp[0])):
            L = [s.leff_col_g(i, grp) for i in grp]
            m = s.mcol()
            F, l, _ = s.tstub(sum(x[0] for x in L), sum(x[1] for x in L), s.col.tf, s.col.fy, m, min(s.emin(), 1.25 * m), nb)
            out["column flange"], out["column web"] = F, s.webten(l)
        if not s.outside(grp[0]):
            L = [s.leff_pl_g(i, grp) for i in grp]
            m = s.mplate(grp[0])
            F, l, _ = s.tstub(sum(x[0] for x in L), sum(x[1] for x in L), s.tp, s.pfy, m, min(s.emin(), 1.25 * m), nb)
            out["end plate"], out["beam web"] = F, l * s.beam.tw * s.beam.fy
        return min(out.values()) if out else math.inf

    def compression(s):
        V = 0.9 * s.col.fy * av(s.col) / math.sqrt(3)
        t, b = s.stiff["col_top_flange"], s.stiff["col_bottom_flange"]
        if t and b:
            ds = s.beam.h - s.beam.tf
            fc = 0.25 * s.col.b * s.col.tf ** 2 * s.col.fy
            st = [0.25 * s.col.b * q["t"] ** 2 * q["fy"] for q in (t, b)]
            V += min(4 * fc, 2 * fc + sum(st)) / ds
        sig = -s.NEd / s.colA
        if b:
            W = stiff_res(s.col, 0.5 * (s.col.b - s.col.tw), s.col.h - 2 * s.col.tf, b["t"], b["fy"])
        else:
            W = web_comp(s.col, s.beam, s.tp, s.ebottom, s.wf, s.beta, sig)[0]
        return V, W, s.beamM / (s.beam.h - s.beam.tf)

    def rows(s):
        """forces of the tension rows: individual, groups in their order, compression"""
        ind = {i: s.row(i) for i in s.tension()}
        F = {i: ind[i][0] for i in ind}
        G = {}
        for grp in s.groups:
            Fg = G[grp] = s.group(grp)
            tot = 0.0
            for i in grp:
                F[i] = min(F[i], Fg - tot)
                tot += F[i]
        V, W, B = s.compression()
        Fc = min(V / s.beta, W, B)
        tot = 0.0
        for i in sorted(F):
            F[i] = min(F[i], Fc - tot)
            tot += F[i]
        return F, ind, G, (V, W, B)

    def h(s, i):
        return s.z[i] + 0.5 * (s.beam.h - s.beam.tf)

    def MRd(s):
        F = s.rows()[0]
        return sum(F[i] * s.h(i) for i in F)

    def keff(s, i):
        lc = min(s.leff_col(i))
        lp = min(s.leff_pl(i))
        for grp in s.groups:
            if i in grp:
                if not (s.adjacent(grp[0]) and s.outside(grp[0])):
                    lc = min([lc] + list(s.leff_col_g(i, grp)))
                if not s.outside(grp[0]):
                    lp = min([lp] + list(s.leff_pl_g(i, grp)))
        dw = s.col.h - 2 * s.col.tf - 2 * s.col.r
        Lb = s.tp + s.col.tf + 2 * WASH[s.d] + 0.5 * (HEAD[s.d] + NUT[s.d])
        ks = [0.7 * lc * s.col.tw / dw, 0.9 * lc * (s.col.tf / s.mcol()) ** 3, 0.9 * lp * (s.tp / s.mplate(i)) ** 3, 1.6 * AS[s.d] / Lb]
        return 1 / sum(1 / k for k in ks)

    def zk(s):
        k = {i: s.keff(i) for i in s.tension()}
        kh = sum(k[i] * s.h(i) for i in k)
        z = sum(k[i] * s.h(i) ** 2 for i in k) / kh
        return z, kh / z

    def Sj(s):
        z, keq = s.zk()
        inv = s.beta * z / (0.38 * av(s.col)) + 1 / keq
        if not s.stiff["col_bottom_flange"]:
            dw = s.col.h - 2 * s.col.tf - 2 * s.col.r
            inv += dw / (0.7 * web_comp(s.col, s.beam, s.tp, s.ebottom, s.wf, s.beta, 0)[1] * s.col.tw)
        return 210e3 * z * z / inv


def valid(s):
    d0 = hole(s.d)
    t = s.tension()
    if not t or s.w - s.beam.tw < 30 or s.mcol() < 4 or s.emin() < 1.1 * d0 or s.e < 1.1 * d0:
        return False
    for i in range(len(s.z)):
        if s.mplate(i) < 4:
            return False
        if s.outside(i) and s.ex(i) < 1.1 * d0:
            return False
        if i and s.z[i - 1] - s.z[i] < 2.2 * d0:
            return False
        if s.h(i) < 20:
            return False
    f = 1 if s.ext else 0
    if len(s.z) > f and s.m2(f) < 4:
        return False
    if s.stiff["col_top_flange"] and s.ext and any(s.m2st(i) < 3 for i in (0, 1) if i < len(s.z)):
        return False
    # effective lengths of rows in groups must be positive (mechanisms exist)
    for g in s.groups:
        for i in g:
            if min(s.leff_col_g(i, g)) < 1:
                return False
            if not s.outside(g[0]) and min(s.leff_pl_g(i, g)) < 1:
                return False
    return True


def build(r):
    for _ in range(400):
        s = Ref()
        K, x = r.choice(COLS)
        s.col = K(x, fy=r.choice([235, 275, 355]))
        K, x = r.choice(BEAMS)
        s.beam = K(x, fy=r.choice([235, 275]))
        s.colA = 2 * s.col.tf * s.col.b + (s.col.h - 2 * s.col.tf) * s.col.tw + (4 - math.pi) * s.col.r ** 2
        s.d, s.cls = r.choice([12, 16, 20, 24, 30]), r.choice([8.8, 10.9])
        s.tp = r.choice([8, 10, 12, 15, 20, 25, 30])
        s.bp = s.col.b * r.choice([1.0, r.uniform(0.6, 1.0), r.uniform(1.0, 1.3)])
        s.e = r.uniform(1.2, 3) * hole(s.d)
        s.ext = r.random() < 0.6
        s.pmat = r.choice(["S235", "S355"])
        s.pfy = {"S235": 235, "S355": 355}[s.pmat]
        s.ebottom = r.uniform(8, 60)
        h = s.beam.h
        s.etop = r.uniform(3, 6) * hole(s.d) if s.ext else r.uniform(5, 20)
        z = []
        if s.ext:
            z.append(0.5 * h + r.uniform(0.4, 0.6) * s.etop)
        y = 0.5 * h - s.beam.tf - r.uniform(1.5, 4) * s.d
        n = r.choice([1, 1, 2, 3, 4])
        for k in range(n):
            z.append(y)
            y -= r.uniform(2.3, 6) * hole(s.d)
        s.z = z
        nt = len(z) - r.choice([0, 0, 1])
        s.typ = ["t" if i < max(nt, 1) else "s" for i in range(len(z))]
        if r.random() < 0.4:
            zl = -0.5 * h + s.beam.tf + 2.5 * s.d
            if z[-1] - zl > 2.3 * hole(s.d):
                s.z.append(zl)
                s.typ.append("s")
        t = s.tension()
        s.groups = [tuple(range(a, b + 1)) for a in t for b in t if b > a]
        if r.random() < 0.3:
            s.groups.sort(key=lambda g: (-len(g), g))
        if valid(s):
            break
    else:
        raise vm.CaseSkip()
    # plastic moment of the beam: only class 1 and 2 in bending
    e = math.sqrt(235 / s.beam.fy)
    b = s.beam
    if 0.5 * (b.b - b.tw - 2 * b.r) / b.tf > 10 * e or (b.h - 2 * b.tf - 2 * b.r) / b.tw > 83 * e:
        raise vm.CaseSkip()
    s.beamM = b.Wpl[0] * b.fy
    L = S
    n = len(s.z)
    t = s.tension()
    fpos = [L.END_ROW if i in (0, t[-1]) else L.INNER_ROW for i in range(n)]
    f = 1 if s.ext else 0
    ppos = [L.ROW_OUTSIDE_BEAM_TENSION_FLANGE if i < f else L.FIRST_ROW_BELOW_BEAM_TENSION_FLANGE if i == f else L.OTHER_END_ROW if i == t[-1] else L.OTHER_INNER_ROW for i in range(n)]

    def gpos(g):
        out = []
        for k, i in enumerate(g):
            end = k in (0, len(g) - 1)
            out.append({"flange": L.END_ROW if end else L.INNER_ROW, "plate": ppos[i] if i <= f else (L.OTHER_END_ROW if end else L.OTHER_INNER_ROW)})
        return out
    J = EndPlateJoint(s.col, s.beam, tp=s.tp, bp=s.bp, mat_p=s.pmat, etop=s.etop, ebottom=s.ebottom, bolt=L.Bolt(s.d, s.cls, 60.0), y_bolts=list(s.z), e_bolts=s.e,
                      bolt_row_pos=[{"flange": a, "plate": b} for a, b in zip(fpos, ppos)], groups=[list(g) for g in s.groups], group_pos=[gpos(g) for g in s.groups],
                      row_types=[L.TENSION_ROW if q == "t" else L.SHEAR_ROW for q in s.typ])
    return s, J


def change(r, s, J):
    """change one thing in joint and reference; returns its name, or None if the result would be invalid"""
    import copy
    old = copy.copy(s)
    old.z, old.typ, old.stiff = list(s.z), list(s.typ), dict(s.stiff)
    what = r.choice(["tp", "bp", "ebolts", "xbolts", "etop", "z_top", "z", "bolt", "weld_f", "weld_w", "beta", "NEd", "type", "top", "bottom", "bottom", "ebottom"])
    act = None
    if what == "tp":
        v = s.tp = r.choice([8, 10, 12, 15, 20, 25, 30, r.uniform(6, 40)])
        act = lambda: setattr(J, "tp", v)
    elif what == "bp":
        v = s.bp = s.bp * r.uniform(0.85, 1.2)
        act = lambda: setattr(J, "bp", v)
    elif what == "ebolts":
        v = s.e = s.e * r.uniform(0.8, 1.3)
        act = lambda: setattr(J, "ebolts", v)
    elif what == "xbolts":
        x = (0.5 * s.bp - s.e) * r.uniform(0.85, 1.2)
        s.e = 0.5 * s.bp - x
        act = lambda: setattr(J, "xbolts", x)
    elif what == "etop":
        v = s.etop = s.etop * r.uniform(0.8, 1.4)
        act = lambda: setattr(J, "etop", v)
    elif what == "ebottom":
        v = s.ebottom = r.uniform(8, 60)
        act = lambda: setattr(J, "ebottom", v)
    elif what in ("z_top", "z"):
        i = r.randrange(len(s.z))
        v = s.z[i] + r.uniform(-20, 20)
        s.z[i] = v
        if what == "z":
            act = lambda: setattr(J.bolt_rows[i], "z", v)
        else:
            top = 0.5 * s.beam.h + s.etop - v
            act = lambda: setattr(J.bolt_rows[i], "z_top", top)
    elif what == "bolt":
        v = s.d = r.choice([12, 16, 20, 24, 30])
        act = lambda: setattr(J, "bolt_size", v)
    elif what == "weld_f":
        v = s.wf = r.randint(3, 10)
        act = lambda: setattr(J, "weld_f", v)
    elif what == "weld_w":
        v = s.ww = r.randint(3, 8)
        act = lambda: setattr(J, "weld_w", v)
    elif what == "beta":
        v = s.beta = r.choice([1.0, r.uniform(0.3, 1), r.uniform(1, 2), 2.0])
        act = lambda: setattr(J, "beta", v)
    elif what == "NEd":
        v = s.NEd = -r.uniform(0, 0.95) * s.colA * s.col.fy
        act = lambda: setattr(s.col, "Ned", v)
    elif what == "type":
        # the last tension row takes shear only: not a member of a group
        t = s.tension()
        c = [i for i in range(len(s.z)) if not any(i in g for g in s.groups) and s.typ[i] == "t"]
        if not c or len(t) < 2:
            return None
        i = c[-1]
        s.typ[i] = "s"
        act = lambda: setattr(J.bolt_rows[i], "type", S.SHEAR_ROW)
    elif what == "top":
        if not s.ext or len(s.z) < 2 or s.stiff["col_top_flange"]:
            return None
        t = r.choice([8, 10, 15, 20, 25])
        m = Steel({235: "S235", 275: "S275", 355: "S355"}[int(s.col.fy)])
        bw = {235: 0.8, 275: 0.85, 355: 0.9}[int(s.col.fy)]
        s.stiff["col_top_flange"] = dict(t=t, fy=s.col.fy, a=math.ceil(bw * G2 * m.fy / m.fu / R2 * t))
        act = lambda: J.add_stiffener("col_top_flange", t=t)
    elif what == "bottom":
        t = r.choice([8, 10, 15, 20, 25])
        s.stiff["col_bottom_flange"] = dict(t=t, fy=s.col.fy)
        act = lambda: J.add_stiffener("col_bottom_flange", t=t)
    if not valid(s):
        s.__dict__.update(old.__dict__)
        return None
    act()
    return what


def query(r, s, J, mon):
    T = 2e-5
    F, ind, G, comp = s.rows()
    asks = ["M", "V", "S", "K", "R", "C", "Z", "rows", "geo"]
    r.shuffle(asks)
    for q in asks[:r.randint(4, 9)]:
        if q == "M":
            mon.close("moment resistance", J.MjRd, s.MRd(), T, 1.0, "MjRd")
            mon.close("row force", [J.bolt_rows[i].FtRd for i in sorted(F)], [F[i] for i in sorted(F)], T, 1e-3, "row forces")
            got = {i: J.bolt_rows[i].FtRd for i in F}
            mon.ok("equilibrium bounds", sum(got.values()) <= min(comp[0] / s.beta, comp[1], comp[2]) * (1 + T) and all(v > -1e-3 for v in got.values())
                   and all(got[i] <= ind[i][0] * (1 + T) for i in got) and all(sum(got[i] for i in g) <= G[g] * (1 + T) for g in G), "row forces %r exceed a component resistance" % got)
        elif q == "V":
            if all(abs(v) > 1 or abs(v) == 0 for v in F.values()) and not any(1e-12 < abs(v) <= 1 for v in F.values()):
                V = J.VjRd
                if any(0 < abs(J.bolt_rows[i].FtRd) < 1 for i in F):
                    continue
                fv = FvRd(s.d, s.cls)
                mon.close("shear resistance", V, sum(2 * fv * (0.286 if i in F and F[i] > 0 else 1.0) for i in range(len(s.z))), 1e-6, 0, "VjRd")
        elif q == "S":
            mon.close("initial stiffness", J.Sj_ini(), s.Sj(), T, 0, "Sj,ini")
        elif q == "K":
            M = s.MRd() * 1e-6
            m = r.choice([r.uniform(0, 0.66), r.uniform(0.67, 1.0)])
            J.MjEd = m * M
            mon.close("rotational stiffness", J.rotational_stiffness(), s.Sj() / (1 if m <= 2 / 3 else (1.5 * m) ** 2.7), 1e-4, 0, "Sj")
            J.MjEd = 0.0
        elif q == "R":
            i = r.choice(s.tension())
            mon.close("row resistance", J.bolt_rows[i].tension_resistance(), ind[i][0], T, 0, "row %d (%s)" % (i, ind[i][1]))
            if s.groups:
                g = r.choice(s.groups)
                # the rows of the group are evaluated first, as in the joint
                got = J.row_groups[s.groups.index(g)].tension_resistance()
                mon.ok("group resistance", vm.close(got, G[g], T, 0) or (math.isinf(G[g]) and math.isinf(got)), "group %r: %r, expected %r" % (g, got, G[g]))
        elif q == "C":
            mon.close("compression side", [J.V_wp_Rd(), J.Fc_wc_Rd(), J.Fc_fb_Rd()], comp, T, 0, "compression side")
        elif q == "rows":
            i = r.choice(s.tension())
            mon.close("row stiffness", J.bolt_rows[i].keff(), s.keff(i), T, 0, "keff of row %d" % i)
        elif q == "Z":
            z, k = s.zk()
            mon.close("lever arm", [J.zeq(), J.keq()], [z, k], T, 0, "zeq, keq")
        else:
            i = r.randrange(len(s.z))
            R = J.bolt_rows[i]
            mon.close("geometry", [R.z, R.z_top, R.h, R.w, R.ex, J.xbolts, J.ebolts, J.p, J.bolt_size], [s.z[i], s.ex(i), s.h(i), s.w, s.ex(i), 0.5 * s.w, s.e, s.w, s.d], 1e-9, 1e-9, "geometry of row %d" % i)


def w_joint(r, mon):
    s, J = build(r)
    mon.case(dict(col=repr(s.col), beam=repr(s.beam), d=s.d, z=s.z, typ="".join(s.typ), ext=s.ext, e=s.e, bp=s.bp))
    done = []
    if r.random() < 0.6:
        query(r, s, J, mon)
    for _ in range(r.randint(1, 6)):
        c = change(r, s, J)
        if c:
            done.append(c)
            if r.random() < 0.6:
                mon.note(c)
                query(r, s, J, mon)
    query(r, s, J, mon)
    i = s.tension()[0]
    x = s.row(i)
    mon.nontrivial((x[1], x[2], x[3], len(s.tension()), done[-1] if done else "", bool(s.stiff["col_top_flange"]), bool(s.stiff["col_bottom_flange"])))


WORKLOADS = {"bolts": (w_bolts, 6000, 60000), "components": (w_components, 6000, 50000), "joint": (w_joint, 12000, 150000)}

if __name__ == "__main__":
    vm.main(globals())
