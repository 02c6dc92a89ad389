"""P01: plate buckling and shear buckling of EN 1993-1-5."""
import os, sys, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vm
sys.path.insert(0, vm.VERIF)
import numpy as np
from ref import ec3

PROPERTY = "P01"
RULE = ("one case is one plate/web configuration (widths, thicknesses, steel, stress ratio, stiffener spacing, end post, patch "
        "load, axial force and moment); every EN 1993-1-5 quantity is recomputed independently, physical relations (ranges, monotonicity, limits) "
        "are checked, and welded sections are driven through sequences of effective-section queries to see history effects. "
        "Non-trivial: distinct rounded configurations.")
MONITORS = ["k_sigma", "rho", "effective width", "shear buckling", "shear limit", "patch load", "effective area",
            "effective modulus", "repeatable", "monotone"]

from metku.eurocodes.en1993 import en1993_1_5 as p5
from metku.sections.steel.wi import WISection


def ks_int(p):
    if p >= 1: return 4.0
    if p > 0: return 8.2 / (1.05 + p)
    if p == 0: return 7.81
    if p > -1: return 7.81 - 6.29 * p + 9.78 * p * p
    if p == -1: return 23.9
    return 5.98 * (1 - p) ** 2


def ks_out(p, where):
    if where == "tip":
        return {1.0: 0.43, 0.0: 0.57, -1.0: 0.85}.get(p, 0.57 - 0.21 * p + 0.07 * p * p)
    if p == 1: return 0.43
    if p > 0: return 0.578 / (p + 0.34)
    if p == 0: return 1.70
    if p > -1: return 1.7 - 5 * p + 17.1 * p * p
    return 23.8


def rho_int(lp, p):
    return 1.0 if lp <= 0.5 + math.sqrt(0.085 - 0.055 * p) else min(1.0, (lp - 0.055 * (3 + p)) / lp ** 2)


def rho_out(lp):
    return 1.0 if lp <= 0.748 else min(1.0, (lp - 0.188) / lp ** 2)


def w_plates(r, mon):
    fy = r.choice([235., 275., 355., 420., 460., 500., 690.])
    e = ec3.eps(fy)
    t = r.uniform(2, 20)
    p = r.choice([1.0, 0.0, -1.0, r.uniform(0, 1), r.uniform(-1, 0), r.uniform(-2.9, -1)])
    mon.case(dict(fy=fy, t=t, psi=p))
    d = "psi=%s fy=%s" % (p, fy)
    mon.close("k_sigma", p5.buckling_factor_internal(p), ks_int(p), 1e-9, 0, d)
    if p >= -1:
        for w in ("tip", "support"):
            mon.close("k_sigma", p5.buckling_factor_outstand(p, w), ks_out(p, w), 1e-9, 0, d + w)
    prev = None
    for b in sorted(t * r.uniform(5, 250) for _ in range(6)):
        ks = ks_int(p)
        lp = b / t / (28.4 * e * math.sqrt(ks))
        mon.close("rho", p5.lambda_p(b, t, e, ks), lp, 1e-9, 0, d)
        rho = rho_int(lp, p)
        lim = 0.5 + math.sqrt(0.085 - 0.055 * p)
        if abs(lp / lim - 1) > 1e-6:
            mon.close("rho", p5.reduction_factor_internal(lp, p), rho, 1e-9, 0, d)
        got, be = p5.effective_width_internal(b, p, rho)
        if p >= 1:
            want, w1 = rho * b, 0.5 * rho * b
        elif p > 0:
            want = rho * b
            w1 = 2 * want / (5 - p)
        else:
            want = rho * b / (1 - p)
            w1 = 0.4 * want
        mon.close("effective width", [got, be[0], be[1]], [want, w1, want - w1], 1e-9, 1e-9, d)
        lo = b / t / (28.4 * e * math.sqrt(0.43))
        if abs(lo / 0.748 - 1) > 1e-6:
            mon.close("rho", p5.reduction_factor_outstand(lo), rho_out(lo), 1e-9, 0, d)
        if p >= -1:
            mon.close("effective width", p5.effective_width_outstand(b, p, rho), rho * b if p >= 0 else rho * b / (1 - p), 1e-9, 0, d)
        r2 = p5.reduction_factor_internal(lp, p)
        mon.ok("monotone", 0 < r2 <= 1 and (prev is None or r2 <= prev + 1e-9), d)
        prev = r2
    mon.nontrivial((fy, round(p, 1), round(t)))


def ref_shear(h, tw, b, tf, fy, a, post, N, M):
    e = ec3.eps(fy)
    hw = h - 2 * tf
    eta = 1.2 if fy <= 460 else 1.0
    if hw / tw < 72 * e / eta:
        return eta * hw * tw * fy / math.sqrt(3)
    kt = 5.34 + 4 * (hw / a) ** 2 if a >= hw else 4 + 5.34 * (hw / a) ** 2
    tcr = kt * 190000 * (tw / hw) ** 2
    lw = 0.76 * math.sqrt(fy / tcr)
    if lw < 0.83 / eta:
        chi = eta
    elif lw < 1.08 or post == "non-rigid":
        chi = 0.83 / lw
    else:
        chi = 1.37 / (0.7 + lw)
    bf = min(b, 30 * e * tf + tw)
    c = a * (0.25 + 1.6 * bf * tf ** 2 / (tw * hw ** 2))
    Mf = b * tf * (h - tf) * fy * (1 - abs(N) / (2 * b * tf * fy))
    rM = abs(M) / Mf
    if rM >= 1 or rM < 0:
        return None
    Vbf = bf * tf ** 2 * fy / c * (1 - rM ** 2)
    return min(chi * fy * hw * tw / math.sqrt(3) + Vbf, eta * fy * hw * tw / math.sqrt(3))


def wi(r):
    fy = r.choice([235, 275, 355, 420, 460, 500])
    tw = r.uniform(4, 16)
    b = r.uniform(120, 450)
    tf = b / 2 / r.uniform(5, 24)
    a = r.choice([3.0, 4.0, 5.0])
    h = 2 * tf + tw * r.uniform(30, 240)
    m = {460: "S460M"}.get(fy, fy)
    return WISection(h, tw, b, tf, m, a), h, tw, b, tf, fy, a


def w_shear(r, mon):
    s, h, tw, b, tf, fy, _ = wi(r)
    hw = h - 2 * tf
    mon.case(dict(h=h, tw=tw, b=b, tf=tf, fy=fy))
    for _ in range(4):
        a = hw * r.choice([r.uniform(0.4, 1), r.uniform(1, 4), 1000.0])
        post = r.choice(["rigid", "non-rigid"])
        N = r.choice([0, 1, -1]) * 2 * b * tf * fy * r.uniform(0, 0.4)
        M = r.choice([0, 1, -1]) * b * tf * (h - tf) * fy * r.uniform(0, 0.55)
        s.Ned, s.Med = N, [M, 0.0]
        want = ref_shear(h, tw, b, tf, fy, a, post, N, M)
        e = ec3.eps(fy)
        eta = 1.2 if fy <= 460 else 1.0
        if want is None or abs(hw / tw / (72 * e / eta) - 1) < 1e-6:
            continue
        d = "h=%.1f tw=%.2f b=%.1f tf=%.2f fy=%s a=%.1f %s N=%.3g M=%.3g" % (h, tw, b, tf, fy, a, post, N, M)
        got = s.shear_buckling_resistance(a, post)
        mon.close("shear buckling", got, want, 1e-7, 0, d)
        mon.ok("shear limit", 0 < got <= s.VRd * (1 + 1e-9), d)
        kt = p5.shear_buckling_coefficient(hw, a)
        mon.close("shear buckling", kt, 5.34 + 4 * (hw / a) ** 2 if a >= hw else 4 + 5.34 * (hw / a) ** 2, 1e-9, 0, d)
        mon.close("shear buckling", p5.tau_crit(hw, a, tw, hw, False), kt * 190000 * (tw / hw) ** 2, 1e-9, 0, d)
    e2, e1 = 1.2 if fy <= 460 else 1.0, None
    mon.close("shear buckling", p5.shear_eta(fy), e2, 0, 0, str(fy))
    prev = {}
    for lw in sorted(r.uniform(0.3, 3) for _ in range(8)):
        for post in ("rigid", "non-rigid"):
            x = p5.shear_buckling_reduction_factor(lw, e2, post)
            w = e2 if lw < 0.83 / e2 else 0.83 / lw if (lw < 1.08 or post == "non-rigid") else 1.37 / (0.7 + lw)
            mon.close("shear buckling", x, w, 1e-9, 0, "chi_w(%s,%s)" % (lw, post))
            mon.ok("monotone", x <= prev.get(post, 9) + 1e-9, "chi_w %s" % lw)
            prev[post] = x
    mon.nontrivial((fy, round(hw / tw), round(b)))


def ref_patch(hw, tw, b, tf, fyw, fyf, ss, a, typ, c):
    ss = min(ss, hw)
    ra = hw / a if a else 1e-3
    aa = a if a else 1000 * hw
    kF = {"a": 6 + 2 * ra ** 2, "b": 3.5 + 2 * ra ** 2}.get(typ) or min(6.0, 2 + 6 * (ss + c) / hw)
    Fcr = 0.9 * kF * 210000 * tw ** 3 / hw
    m1 = fyf * b / (fyw * tw)

    def ly(m2):
        if typ in "ab":
            return min(ss + 2 * tf * (1 + math.sqrt(m1 + m2)), aa)
        le = min(kF * 210000 * tw ** 2 / (2 * fyw * hw), ss + c)
        return min(le + tf * math.sqrt(m1 / 2 + (le / tf) ** 2 + m2), le + tf * math.sqrt(m1 + m2))
    l = ly(0.0)
    lam = math.sqrt(l * tw * fyw / Fcr)
    if lam > 0.5:
        l = ly(0.02 * (hw / tf) ** 2)
        lam = math.sqrt(l * tw * fyw / Fcr)
    return fyw * tw * min(1.0, 0.5 / lam) * l


def w_patch(r, mon):
    s, h, tw, b, tf, fy, _ = wi(r)
    hw = h - 2 * tf
    mon.case(dict(h=h, tw=tw, b=b, tf=tf, fy=fy))
    for _ in range(5):
        typ = r.choice("abc")
        ss = r.choice([r.uniform(10, 400), 0.0 if typ != "c" else 30.0, 1.5 * hw])
        a = r.choice([0, hw * r.uniform(0.7, 4)])
        c = r.uniform(0, 300)
        d = "hw=%.1f tw=%.2f b=%.1f tf=%.2f fy=%s ss=%.1f a=%.1f %s c=%.1f" % (hw, tw, b, tf, fy, ss, a, typ, c)
        want = ref_patch(hw, tw, b, tf, fy, fy, ss, a, typ, c)
        mon.close("patch load", s.transverse_load_resistance(ss, typ, a, c), want, 1e-7, 0, d)
        fyf = r.choice([235., 355., 460.])
        mon.close("patch load", p5.transverse_force_resistance(fy, hw, tw, fyf, b, tf, ss, a, typ, c),
                  ref_patch(hw, tw, b, tf, fy, fyf, ss, a, typ, c), 1e-7, 0, d + " fyf=%s" % fyf)
    mon.nontrivial((fy, round(hw / tw), round(b)))


def ref_eff(h, tw, b, tf, fy, thr):
    """effective area (pure compression) and converged effective modulus (bending, top compressed)"""
    e = ec3.eps(fy)
    w = math.sqrt(2) * thr
    hw = h - 2 * tf
    cw, cf = hw - 2 * w, (b - tw) / 2 - w
    rf = rho_out(cf / tf / (28.4 * e * math.sqrt(0.43)))
    rw = rho_int(cw / tw / (28.4 * e * 2.0), 1.0)
    A = 2 * b * tf + hw * tw
    Aeff = A - 4 * (1 - rf) * cf * tf - (1 - rw) * cw * tw
    bt = b - 2 * (1 - rf) * cf
    psi, bneg, be1 = -1.0, 0.0, cw
    z0 = h / 2
    for _ in range(300):
        rho = rho_int(cw / tw / (28.4 * e * math.sqrt(ks_int(psi))), psi)
        beff = rho * cw / (1 - psi)
        be1 = 0.4 * beff
        bc = h - z0 - tf - w
        bneg = max(bc - beff, 0.0)
        parts = [(bt, h - tf, h), (b, 0.0, tf), (tw, tf, h - tf - w - be1 - bneg), (tw, h - tf - w - be1, h - tf)]
        Ae = sum(x * (z2 - z1) for x, z1, z2 in parts)
        z0 = sum(x * (z2 ** 2 - z1 ** 2) / 2 for x, z1, z2 in parts) / Ae
        psi = (tf - z0) / (h - z0 - tf)
    I = sum(x * ((z2 - z0) ** 3 - (z1 - z0) ** 3) / 3 for x, z1, z2 in parts)
    return Aeff, I, I / max(z0, h - z0), rf, rw


def w_effective(r, mon):
    s, h, tw, b, tf, fy, thr = wi(r)
    mon.case(dict(h=h, tw=tw, b=b, tf=tf, fy=fy, weld=thr))
    Aeff, I, W, rf, rw = ref_eff(h, tw, b, tf, fy, thr)
    d = "h=%.1f tw=%.2f b=%.1f tf=%.2f fy=%s" % (h, tw, b, tf, fy)
    base = {}
    for k in range(6):
        q = r.choice(["Aeff", "Weff", "Ieff", "MRd", "flange"])
        if q == "Aeff":
            v = s.Aeff
            mon.close("effective area", v, Aeff, 1e-6, 0, d)
            mon.ok("effective area", 0 < v <= s.A * (1 + 1e-9), d)
        elif q == "Weff":
            v = s.W_eff_y
            mon.close("effective modulus", v, W, 0.01, 0, d)
            mon.ok("effective modulus", 0 < v <= s.Wel[0] * 1.001, d + " W_eff=%s Wel=%s" % (v, s.Wel[0]))
        elif q == "Ieff":
            v = s.effective_second_moment_area_y(psi_init=-1)
            mon.close("effective modulus", v, I, 0.01, 0, d)
        elif q == "MRd":
            s.Ned, s.Med = 0.0, [r.uniform(1e6, 1e9), 0.0]
            v = s.bending_resistance(4)[0]
            mon.close("effective modulus", v, W * fy, 0.01, 0, d)
            mon.close("effective modulus", s.bending_resistance(3)[0], s.Wel[0] * fy, 1e-9, 0, d)
        else:
            v = s.effective_flange(r.choice(["top", "bottom"]))
            mon.close("rho", v, rf, 1e-9, 0, d)
        if q in base:
            mon.close("repeatable", v, base[q], 1e-9, 0, d + " " + q)
        base[q] = v
    mon.nontrivial((fy, round(rf, 2), round(rw, 2)))


WORKLOADS = {"plates": (w_plates, 120, 4000), "shear": (w_shear, 200, 6000), "patch": (w_patch, 150, 5000),
             "effective": (w_effective, 200, 5000)}

if __name__ == "__main__":
    vm.main(globals())
