"""S03: cross-section class and cross-section resistance of EN 1993-1-1."""
import os, sys, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vm
sys.path.insert(0, vm.VERIF)
import numpy as np
from ref import ec3, sections as rs

PROPERTY = "S03"
RULE = ("one case is one section (rolled, random I, RHS/SHS, CHS, welded I or welded box beam) of random steel under random internal forces "
        "of every sign combination, scaled around the resistance and around the class limits; class, resistances and "
        "utilization ratios are compared with Table 5.2 and 6.2 written out independently, then the forces and the material of the same object are "
        "changed and everything is compared again. Non-trivial: distinct (family, class, force pattern, steel).")
MONITORS = ["class pure compression", "class pure bending", "class combined", "class tension", "axial resistance",
            "shear resistance", "moment resistance", "utilization", "interaction", "part limits"]

from metku.sections.steel.ISection import IPE, HEA, HEB, ISection
from metku.sections.steel.RHS import RHS, SHS
from metku.sections.steel.CHS import CHS
from metku.sections.steel.wi import WISection
from metku.sections.steel.wq import WQSection
import metku.sections.steel.catalogue as cat
from metku.eurocodes.en1993 import en1993_1_1 as en

STEELS = ["S220GD", "S235", "S275", "S355", "S420", "S460M", "S500", "S700"]
FY = dict(S220GD=220., S235=235., S275=275., S355=355., S420=420., S460M=460., S500=500., S700=700.)


def rhs_R(t):
    return 2 * t if t <= 6 else (2.5 * t if t <= 10 else 3 * t)


class IRef:
    def __init__(s, h, b, tf, tw, rr, fy, cw=None, cf=None):
        s.h, s.b, s.tf, s.tw, s.fy = h, b, tf, tw, fy
        s.cw = h - 2 * tf - 2 * rr if cw is None else cw
        s.cf = (b - tw) / 2 - rr if cf is None else cf
        s.nweb = 1
        s.Af = 2 * b * tf

    def flange(s, e):
        return ec3.outstand_comp(s.cf / s.tf, e)

    def web_slend(s):
        return s.cw / s.tw


class RRef:
    def __init__(s, h, b, t, fy):
        R = rhs_R(t)
        s.h, s.fy = h, fy
        s.cw, s.cf, s.tw, s.tf = h - 2 * R, b - 2 * R, t, t
        s.nweb = 2
        s.Af = 2 * b * t

    def flange(s, e):
        return ec3.internal_comp(s.cf / s.tf, e)

    def web_slend(s):
        return s.cw / s.tw


class QRef:
    """welded box beam in sagging bending: the top plate between the webs is compressed"""
    def __init__(s, h, tw, bt, tt, bb, tb, fy):
        s.fy, s.tw, s.tf, s.nweb = fy, tw, tt, 2
        s.cw, s.cf = h - tt, bt
        s.Af = bt * tt + bb * tb
        p = rs.wq(h, tw, bt, tt, bb, tb)[0].props()
        lo, hi = tb, tb + h - tt
        s.alpha = min(max((hi - p["zp"]) / (hi - lo), 0.0), 1.0)
        s.psi = (lo - p["zc"]) / (hi - p["zc"]) if hi > p["zc"] else -math.inf
        s.Wtop = p["Iy"] / (h + tb - p["zc"])

    def flange(s, e):
        return ec3.internal_comp(s.cf / s.tf, e)

    def web_slend(s):
        return s.cw / s.tw


def near(x, lims, tol=1e-6):
    """on a class limit (124 eps and 42 eps/0.34, and 83 eps and 456 eps/5.5, are the same limits of Table 5.2, rounded differently)"""
    return any(abs(x / l - 1) < tol for l in lims if l not in (0, math.inf))


def near124(w, e):
    return 0.995 * 124 * e < w < 1.001 * 124 * e or 0.998 * 83 * e < w < 1.0002 * 83 * e


def ref_class(g, sec, N, M, e):
    """class by Table 5.2; N tension positive. Returns (class, borderline)"""
    if isinstance(g, float):              # tube, g = d/t
        if N >= 0 and abs(M) < 1e-4:
            return 1, False
        if N > 0 and N / sec.A >= abs(M) / sec.Wel[0]:
            return 1, False
        return ec3.tube(g, e), near(g, [50 * e * e, 70 * e * e, 90 * e * e])
    w = g.web_slend()
    fl = g.flange(e)
    flim = [9 * e, 10 * e, 14 * e] if g.nweb == 1 else [33 * e, 38 * e, 42 * e]
    bord = near(g.cf / g.tf, flim)
    if N >= 0 and abs(M) < 1e-4:
        return 1, False
    if isinstance(g, QRef) and M > 1e-4:
        c1 = max(fl, ec3.internal_mn(w, e, g.alpha, g.psi) if g.alpha > 0 else 1)
        lim = [l for l in ec3.internal_limits(e, max(g.alpha, 1e-9), max(g.psi, -1e6)) if l < math.inf]
        bord = bord or near(w, lim, 1e-4) or (abs(g.psi + 1) < 0.02 and near124(w, e)) or (abs(g.alpha - 0.5) < 0.01 and near124(w, e)) \
            or abs(g.alpha) < 1e-6
        if N <= 0:
            return c1, bord
        # no compression in the top fibre; the stress in the far fibre may be taken on the safe side
        if N / sec.A < M / g.Wtop:
            return c1, bord
        return 1, bord or N / sec.A < 1.000001 * M / sec.Wel[0]
    if N > 0:
        sN, sM = N / sec.A, abs(M) / sec.Wel[0]
        if sN >= sM:
            return 1, abs(sN - sM) < 1e-9 * sN
        return max(fl, ec3.internal_bend(w, e)), bord or near(w, [72 * e, 83 * e]) or near124(w, e)
    if abs(N) < 1e-4:
        return max(fl, ec3.internal_bend(w, e)), bord or near(w, [72 * e, 83 * e]) or near124(w, e)
    if abs(M) < 1e-4:
        return max(fl, ec3.internal_comp(w, e)), bord or near(w, [33 * e, 38 * e, 42 * e])
    a = min(0.5 * (1 + (-N) / (g.nweb * g.cw * g.tw * g.fy)), 1.0)
    sN, sM = -N / sec.A, abs(M) / sec.Wel[0]
    psi = (sN - sM) / (sN + sM)
    lim = ec3.internal_limits(e, a, psi)
    return max(fl, ec3.internal_mn(w, e, a, psi)), bord or near(w, lim) or (abs(psi + 1) < 1e-3 and near124(w, e)) or (abs(a - 0.5) < 1e-3 and near124(w, e))


def make(r):
    """(section, geometry, tag)"""
    m = r.choice(STEELS)
    k = r.choice(["rolled", "I", "RHS", "RHS", "SHS", "CHS", "WI", "WQ"])
    if k == "rolled":
        key = r.choice(sorted(list(cat.ipe_profiles) + list(cat.hea_profiles) + list(cat.heb_profiles)))
        v = cat.profile[key]
        cls = IPE if key[0] == "I" else (HEA if key[-1] == "A" else HEB)
        s = cls(int(key.split()[1]), m)
        return s, IRef(v["h"], v["b"], v["t_f"], v["t_w"], v["r"], FY[m]), k + key + m, m
    if k == "I":
        b = r.uniform(80, 350)
        tf = b / 2 / r.uniform(6, 20)
        tw = r.uniform(0.4, 1.0) * tf
        rr = r.uniform(0.5, 1.5) * tf
        h = 2 * tf + 2 * rr + tw * r.choice([r.uniform(15, 50), r.uniform(25, 150)])
        return ISection(h, b, tf, tw, rr, m), IRef(h, b, tf, tw, rr, FY[m]), k + m, m
    if k in ("RHS", "SHS"):
        t = round(r.uniform(2, 13), 1)
        b = 2 * rhs_R(t) + t * r.uniform(5, 60)
        h = b if k == "SHS" else 2 * rhs_R(t) + t * r.choice([r.uniform(5, 60), r.uniform(40, 140)])
        s = SHS(h, t, m) if k == "SHS" else RHS(h, b, t, m)
        return s, RRef(h, b, t, FY[m]), k + m, m
    if k == "CHS":
        t = r.uniform(2, 10)
        d = t * r.uniform(8, 110)
        return CHS(d, t, m), d / t, k + m, m
    if k == "WQ":
        tw = r.uniform(5, 15)
        tt, tb = (r.choice([r.uniform(8, 35), r.uniform(35, 70)]) for _ in range(2))
        h = tt + tw * r.choice([r.uniform(15, 60), r.uniform(50, 150)])
        bt = tt * r.uniform(4, 60)
        bb = bt + 2 * tw + r.uniform(50, 300)
        m = r.choice(["S235", "S275", "S355", "S420", "S500"])
        return WQSection(h, tw, [bt, bb], [tt, tb], m), QRef(h, tw, bt, tt, bb, tb, FY[m]), k + m, m
    b = r.uniform(100, 400)
    tf = b / 2 / r.uniform(5, 20)
    tw = r.uniform(4, 15)
    a = r.choice([3.0, 4.0, 5.0, 6.5])
    h = 2 * tf + tw * r.uniform(20, 150) + 2 * math.sqrt(2) * a
    m = r.choice(["S235", "S275", "S355", "S420", "S500"])
    s = WISection(h, tw, b, tf, m, a)
    g = IRef(h, b, tf, tw, 0, FY[m], cw=h - 2 * tf - 2 * math.sqrt(2) * a, cf=(b - tw) / 2 - math.sqrt(2) * a)
    return s, g, k + m, m


def forces(r, s, k):
    f = s.fy
    Npl, Mel, Vpl = s.A * f, s.Wel[0] * f, s.Ashear[1] * f / math.sqrt(3)
    N = r.choice([0.0, 1, -1, -1, -1]) * Npl * r.choice([r.uniform(0, 1.1), r.uniform(0, 0.3), 1e-3])
    M = r.choice([0.0, 1, -1, 1, -1]) * Mel * r.choice([r.uniform(0, 1.3), r.uniform(0, 0.3)])
    V = r.choice([0.0, 1, -1]) * Vpl * r.uniform(0, 1.2)
    if k.startswith("WQ"):
        M = abs(M)                        # the sign of the moment is not distinguished: sagging
    if k[:2] in ("WI", "WQ") and N < 0 and M != 0:
        # web classification of welded sections in combined forces is not specified (marked TODO)
        if r.random() < 0.5:
            N = 0.0
        else:
            M = 0.0
    return N, M, V, r.choice([0.0, 1, -1]) * s.Ashear[0] * f * r.uniform(0, 0.5), \
        r.choice([0, 0, 1]) * s.Wel[1] * f * r.uniform(-1, 1)


def judge(mon, s, g, tag, fy, N, M, Vz, Vy, Mz, r):
    e = ec3.eps(fy)
    c, bord = ref_class(g, s, N, M, e)
    d = "%s N=%.4g M=%.4g" % (tag, N, M)
    # --- class
    got = s.section_class()
    if not bord:
        name = ("class tension" if N > 0 or (N == 0 and M == 0) else "class pure bending" if N == 0
                else "class pure compression" if M == 0 else "class combined")
        mon.ok(name, got == c and s.C == c, "%s class=%s/%s want=%s" % (d, got, s.C, c))
    else:
        c = got
    A = s.A
    mon.close("axial resistance", [s.NRd, s.axial_force_resistance()], A * fy, 1e-9, 0, d)
    t3 = math.sqrt(3)
    mon.close("shear resistance", [s.VRd, s.VzRd, s.shear_force_resistance()], s.Ashear[1] * fy / t3, 1e-9, 0, d)
    mon.close("moment resistance", [s.elastic_bending_resistance("y"), s.elastic_bending_resistance("z")], np.asarray(s.Wel) * fy, 1e-9, 0, d)
    mon.close("moment resistance", [s.plastic_bending_resistance("y"), s.plastic_bending_resistance("z")], np.asarray(s.Wpl) * fy, 1e-9, 0, d)
    if isinstance(s, RHS) or isinstance(s, CHS):
        mon.close("shear resistance", [s.VyRd, s.shear_force_resistance(axis="y")], s.Ashear[0] * fy / t3, 1e-9, 0, d)
    for C in (1, 2, 3):
        W = s.Wpl if C < 3 else s.Wel
        for ax, i in (("y", 0), ("z", 1)):
            v = s.bending_resistance(C, axis=ax)
            mon.close("moment resistance", v[0], W[i] * fy, 1e-9, 0, d + " C=%d" % C)
            mon.ok("moment resistance", v[1] == C, d)
    if c > 3:
        return c
    W = s.Wpl if c < 3 else s.Wel
    mon.close("moment resistance", [s.MRd, s.MyRd, s.MzRd], [W[0] * fy, W[0] * fy, W[1] * fy], 1e-9, 0, d + " class %d" % c)
    # --- utilization, major axis
    UN, UV, UM = abs(N) / (A * fy), abs(Vz) / (s.Ashear[1] * fy / t3), abs(M) / (W[0] * fy)
    UMN = UN + UM
    if c < 3:
        if isinstance(g, float):
            f = 1 - UN ** 1.7
        else:
            aw = min((A - g.Af) / A, 0.5)
            f = min((1 - UN) / (1 - 0.5 * aw), 1.0)
        if UN < 1 - 1e-9:
            UMN = UM / f
    got = s.section_resistance(axis="y")
    if abs(UN - 1) > 1e-6:
        mon.close("utilization", got[:3], [UN, UV, UM], 1e-9, 1e-12, d)
        mon.close("interaction", got[3], UMN, 1e-7, 1e-12, d + " class %d" % c)
        mon.close("utilization", s.section_resistance(axis="y", return_list=False), max(UN, UV, UM, UMN), 1e-7, 1e-12, d)
    if isinstance(s, (RHS, CHS)):
        gz = s.section_resistance(axis="z")
        mon.close("utilization", gz[:3], [UN, abs(Vy) / (s.Ashear[0] * fy / t3), abs(Mz) / (W[1] * fy)], 1e-9, 1e-12, d + " z axis")
    return c


def w_section(r, mon):
    s, g, tag, m = make(r)
    mon.case(dict(section=tag, repr=repr(s), dims={k: v for k, v in vars(s).items() if isinstance(v, (int, float))}))
    hist = []
    for _ in range(r.randint(2, 6)):
        if hist and r.random() < 0.3 and not isinstance(s, (WISection, WQSection)):
            m = r.choice(STEELS)
            s.material = m
            if not isinstance(g, float):
                g.fy = FY[m]
        N, M, Vz, Vy, Mz = forces(r, s, tag)
        if isinstance(s, (WISection, WQSection)):
            Mz = Vy = 0.0
        s.Ned = N
        s.Med = [M, Mz]
        s.Ved = [Vy, Vz]
        hist.append((m, N, M))
        c = judge(mon, s, g, tag, FY[m], N, M, Vz, Vy, Mz, r)
        mon.nontrivial((tag[:4], c, N > 0, N < 0, M > 0, M < 0, m))


def w_limits(r, mon):
    """the classification functions themselves, around every limit"""
    fy = r.choice(list(FY.values()) + [r.uniform(200, 700)])
    e = ec3.eps(fy)
    a = r.choice([r.uniform(0.01, 0.5), r.uniform(0.5, 1.0), 0.5, 1.0])
    psi = r.choice([1.0, 0.0, -1.0, r.uniform(-1, 1), r.uniform(-4, -1)])
    mon.case(dict(fy=fy, alpha=a, psi=psi))
    for k in range(20):
        for fn, ref, lims in ((en.internal_part_in_bending, ec3.internal_bend, (72 * e, 83 * e, 124 * e)),
                              (en.internal_part_in_compression, ec3.internal_comp, (33 * e, 38 * e, 42 * e)),
                              (en.outstand_part_in_compression, ec3.outstand_comp, (9 * e, 10 * e, 14 * e)),
                              (en.CHS_class, ec3.tube, (50 * e * e, 70 * e * e, 90 * e * e))):
            x = r.choice(lims) * r.choice([1 - 1e-5, 1 + 1e-5, r.uniform(0.5, 1.5)])
            mon.ok("part limits", fn(x, e) == ref(x, e), "%s(%s, %s)=%s want %s" % (fn.__name__, x, e, fn(x, e), ref(x, e)))
        lims = [l for l in ec3.internal_limits(e, a, psi) if l < math.inf]
        x = r.choice(lims) * r.choice([1 - 1e-5, 1 + 1e-5, r.uniform(0.5, 1.5)])
        got, want = en.internal_part_comp_bend(x, e, a, psi), ec3.internal_mn(x, e, a, psi)
        mon.ok("part limits", got == want, "comp_bend(%s,%s,%s,%s)=%s want %s" % (x, e, a, psi, got, want))
    mon.nontrivial((round(fy), round(a, 2), round(psi, 2)))


WORKLOADS = {"section": (w_section, 500, 15000), "limits": (w_limits, 60, 1500)}

if __name__ == "__main__":
    vm.main(globals())
