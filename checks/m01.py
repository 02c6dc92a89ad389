"""M01: member buckling resistances (flexural, torsional, lateral-torsional) of EN 1993-1-1."""
import os, sys, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vm
sys.path.insert(0, vm.VERIF)
sys.path.insert(0, os.path.join(vm.VERIF, "checks"))
import numpy as np
from ref import ec3
from ref.ltb import mcr_ritz

PROPERTY = "M01"
RULE = ("one case is one steel member (rolled, own I, welded I, RHS/SHS, CHS) of random steel, length, buckling length factors, whose critical forces, "
        "slendernesses, buckling strengths, critical moments and LTB strengths are compared with independent formulae and with Ritz solutions of the "
        "lateral-torsional stability problem; length, factors and profile are then changed on the same member. Non-trivial: distinct (family, steel, slenderness).")
MONITORS = ["Ncr", "slenderness", "buckling curve", "NbRd", "torsional", "Mcr", "Mcr Ritz", "cantilever", "cantilever Ritz",
            "MbRd", "monotone", "weight", "shear stiffness", "Table B.1", "Table B.3", "plain rules"]

from metku.sections.steel.ISection import IPE, HEA, HEB, HEM, ISection
from metku.sections.steel.RHS import RHS, SHS
from metku.sections.steel.CHS import CHS
from metku.sections.steel.wi import WISection
import metku.sections.steel.catalogue as cat
from metku.eurocodes.en1993 import en1993_1_1 as en
from metku.structures.steel.steel_member import SteelMember

E, G = 210e3, 81e3
GM = E / 2.6          # shear modulus of the material (E, nu); the rounded 81 GPa of EN 1993-1-1 enters Mcr
STEELS = ["S235", "S275", "S355", "S420", "S460M", "S500"]
FY = dict(S235=235., S275=275., S355=355., S420=420., S460M=460., S500=500.)


def profile(r):
    """(section, curves y z, LT curves general specific, tag, fy)"""
    m = r.choice(STEELS)
    fy = FY[m]
    k = r.choice(["rolled", "rolled", "I", "WI", "RHS", "SHS", "CHS"])
    if k in ("rolled", "I"):
        if k == "rolled":
            key = r.choice(sorted(cat.profile))
            v = cat.profile[key]
            h, b, tf, tw, rr = v["h"], v["b"], v["t_f"], v["t_w"], v["r"]
            p = key.split()
            num = int(p[1]) if p[1].isdigit() else p[1]
            if p[0] == "IPE":
                s = IPE(num, m)
            elif p[2] in ("A", "B", "M"):
                s = dict(A=HEA, B=HEB, M=HEM)[p[2]](num, m)
            else:
                s = ISection(h, b, tf, tw, rr, m)
        else:
            tf = r.choice([r.uniform(6, 38), r.uniform(41, 95), r.uniform(101, 130)])
            b = tf * r.uniform(6, 20)
            h = b * r.choice([r.uniform(0.9, 1.19), r.uniform(1.21, 1.99), r.uniform(2.01, 3)]) + 2 * tf
            tw, rr = tf * r.uniform(0.4, 1), tf * r.uniform(0.5, 1)
            s = ISection(h, b, tf, tw, rr, m)
        hi = fy >= 460
        if h / b > 1.2:
            c = (("a", "b"), ("a0", "a0")) if tf <= 40 else (("b", "c"), ("a", "a"))
        else:
            c = (("b", "c"), ("a", "a")) if tf <= 100 else (("d", "d"), ("c", "c"))
        return s, c[hi], ("a", "b") if h / b <= 2 else ("b", "c"), k, fy
    if k in ("RHS", "SHS"):
        t = round(r.uniform(3, 12), 1)
        R = 2 * t if t <= 6 else (2.5 * t if t <= 10 else 3 * t)
        b = 2 * R + t * r.uniform(5, 40)
        h = b if k == "SHS" else 2 * R + t * r.uniform(5, 50)
        return (SHS(h, t, m) if k == "SHS" else RHS(h, b, t, m)), ("c", "c"), None, k, fy
    if k == "CHS":
        t = r.uniform(3, 10)
        return CHS(t * r.uniform(8, 60), t, m), ("c", "c"), None, k, fy
    tf = r.choice([r.uniform(8, 39), r.uniform(41, 60)])
    b = tf * r.uniform(6, 20)
    h = b * r.choice([r.uniform(1.0, 1.95), r.uniform(2.05, 4)])
    m = r.choice(["S235", "S275", "S355", "S420", "S500"])
    s = WISection(h, tf * r.uniform(0.3, 0.9), b, tf, m)
    return s, ("b", "c") if tf <= 40 else ("c", "d"), ("c", "c") if h / b <= 2 else ("d", "d"), k, FY[m]


def judge(mon, r, m, s, curves, ltc, L, lcr, tag, fy):
    d = "%s %r L=%.0f lcr=%s fy=%s" % (tag, s, L, lcr, fy)
    A, I = s.A, np.asarray(s.I, float)
    al = [ec3.CURVES[c] for c in curves]
    mon.close("buckling curve", s.imp_factor, al, 1e-12, 0, d)
    Ncr = math.pi ** 2 * E * I / (L * np.asarray(lcr)) ** 2
    mon.close("Ncr", m.ncrit(), Ncr, 1e-9, 0, d)
    lam = np.sqrt(A * fy / Ncr)
    mon.close("slenderness", m.slenderness(), lam, 1e-9, 0, d)
    Nb = [A * fy * ec3.chi(l, a) for l, a in zip(lam, al)]
    mon.close("NbRd", m.buckling_strength(), Nb, 1e-9, 0, d)
    mon.close("NbRd", m.NbRd, Nb, 1e-9, 0, d)
    for i in range(2):
        mon.ok("monotone", m.buckling_strength()[i] <= min(A * fy, Ncr[i]) * (1 + 1e-9), d)
    NT = (GM * s.It + math.pi ** 2 * E * s.Iw / L ** 2) / ((I[0] + I[1]) / A)
    mon.close("torsional", m.ncrit_T(), NT, 1e-9, 0, d)
    lT = math.sqrt(A * fy / NT)
    mon.close("torsional", [m.slenderness_torsional(), m.torsional_buckling_strength()], [lT, A * fy * ec3.chi(lT, al[1])], 1e-9, 0, d)
    mon.close("weight", [m.weight(), m.cost(), m.fy()], [A * 7850e-9 * L, A * 7850e-9 * L * s.unit_cost, fy], 1e-9, 0, d)
    if ltc is None:
        return lam
    # lateral-torsional buckling
    Iz, Iw, It = I[1], s.Iw, s.It
    C = r.choice([[1.0, 0.0, 0.0], [1.12, 0.45, 0.525], [1.365, 0.553, 1.73], [r.uniform(1, 2.7), r.uniform(0, 1.5), 0.5]])
    k = [r.uniform(0.5, 1.0), r.uniform(0.5, 1.0)] if r.random() < 0.5 else [1, 1]
    za = r.choice([0.0, s.h / 2, -s.h / 2, r.uniform(-1, 1) * s.h])
    c2 = C[1] * za
    want = C[0] * math.pi ** 2 * E * Iz / (k[0] * L) ** 2 * (
        math.sqrt((k[0] / k[1]) ** 2 * Iw / Iz + (k[0] * L) ** 2 * G * It / (math.pi ** 2 * E * Iz) + c2 ** 2) - c2)
    mon.close("Mcr", m.mcrit(C=C, k=k, za=za), want, 1e-8, 0, d + " C=%s k=%s za=%s" % (C, k, za))
    mon.close("Mcr", m.mcrit(), 1.12 * math.pi / L * math.sqrt(E * Iz * (G * It + math.pi ** 2 * E * Iw / L ** 2)), 1e-9, 0, d + " default")
    mon.close("Mcr Ritz", m.mcrit([1.0, 0.0, 0.0]), mcr_ritz(E * Iz, G * It, E * Iw, L, "ends"), 1e-6, 0, d + " uniform moment")
    zz = r.choice([0.0, 0.5, -0.5]) * s.h
    mon.close("Mcr Ritz", m.mcrit([1.13, 0.454, 0.525], za=zz), mcr_ritz(E * Iz, G * It, E * Iw, L, "uniform", zz), 0.03, 0, d + " udl za=%s" % zz)
    # resistance for an applied moment
    mats = sorted(max(want, 1) * r.choice([r.uniform(0.001, 0.3), r.uniform(0.3, 2)]) for _ in range(2))
    for MEd in mats:
        m.clear_sections()
        m.add_section(myed=r.choice([1, -1]) * MEd, loc=0.0)
        m.add_section(myed=MEd * r.uniform(-1, 1), loc=1.0)
        for meth, ci, l0, beta in (("general", 0, 0.2, 1.0), ("specific", 1, 0.4, 0.75)):
            MRd = s.Wpl[0] * fy
            for Mcr in (want, want * r.uniform(0.3, 3), MRd / l0 ** 2 * r.choice([0.99, 1.01])):
                ll = math.sqrt(MRd / Mcr)
                a = ec3.CURVES[ltc[ci]]
                if abs(ll / l0 - 1) < 1e-6 or abs(MEd / Mcr / l0 ** 2 - 1) < 1e-6:
                    continue
                if ll <= l0 or MEd / Mcr <= l0 ** 2:
                    x = 1.0
                else:
                    p = 0.5 * (1 + a * (ll - l0) + beta * ll ** 2)
                    x = min(1.0, 1 / (p + math.sqrt(p * p - beta * ll * ll)))
                    if meth == "specific":
                        x = min(x, 1 / ll ** 2)
                kw = {} if meth == "specific" and r.random() < 0.5 else dict(method=meth)
                mon.close("MbRd", m.LT_buckling_strength(Mcr, MRd=MRd, **kw), x * MRd, 1e-9, 0,
                          d + " %s lamLT=%.4f MEd/Mcr=%.3f" % (meth, ll, MEd / Mcr))
                mon.close("MbRd", m.LT_slenderness(Mcr, MRd=MRd), ll, 1e-9, 0, d)
    if isinstance(s, (ISection, WISection)):
        S = (E * Iw * math.pi ** 2 / L ** 2 + GM * It + E * Iz * math.pi ** 2 / L ** 2 * 0.25 * s.h ** 2) * 70 / s.h ** 2
        mon.close("shear stiffness", m.required_shear_stiffness(), S, 1e-9, 0, d)
    return lam


def w_member(r, mon):
    s, cv, lt, tag, fy = profile(r)
    L = math.sqrt(s.I[1] / s.A) * r.choice([r.uniform(5, 60), r.uniform(30, 250)])
    lcr = [r.uniform(0.5, 2.2), r.uniform(0.5, 1.2)]
    mon.case(dict(tag=tag, section=repr(s), fy=fy, L=L, lcr=lcr))
    default = r.random() < 0.2
    m = SteelMember(s, L) if default else SteelMember(s, L, Lcr=lcr)
    if default:
        lcr = [1.0, 1.0]
    for step in range(r.randint(1, 3)):
        lam = judge(mon, r, m, s, cv, lt, L, lcr, tag, fy)
        mon.nontrivial((tag, fy, round(float(lam[0]), 1), round(float(lam[1]), 1)))
        q = r.random()
        if q < 0.4:
            L *= r.uniform(0.5, 1.8)
            m.length = L
        elif q < 0.7:
            lcr = [r.uniform(0.5, 2.2), r.uniform(0.5, 1.2)]
            m.lcr = np.array(lcr)
        else:
            s, cv, lt, tag, fy = profile(r)
            m.profile = s


# Andrade et al. (2007): C1 (times sqrt(1+K^2)) and C2 for top / bottom loading
AND = {(True, "point"): ((2.437, 0.613, -0.105), (0.409, 1.444, 0.070), (0.529, 0.234, 0.149)),
       (True, "uniform"): ((3.840, 1.496, -0.247), (0.984, 1.420, 0.165), (1.028, 0.388, 0.150)),
       (False, "point"): ((2.462, 2.383, 0.0), (0.380, 2.092, -0.318), (0.512, 0.370, -0.033)),
       (False, "uniform"): ((3.962, 5.531, 0.0), (1.130, 1.539, -0.176), (1.049, 0.234, -0.020))}


def w_cantilever(r, mon):
    while True:
        s, cv, lt, tag, fy = profile(r)
        if isinstance(s, ISection):
            break
    Iz, It, hS = s.I[1], s.It, s.h - s.tf
    K = r.uniform(0.12, 2.45)
    L = math.pi / K * math.sqrt(E * Iz * hS ** 2 / 4 / GM / It)
    m = SteelMember(s, L)
    mon.case(dict(section=repr(s), L=L, K=K))
    for (wf, load), (c1, ct, cb) in AND.items():
        for loc, c2, za in (("middle", None, 0.0), ("top", ct, 0.5 * s.h), ("bottom", cb, -0.5 * s.h)):
            got = m.mcrit_cantilever(load, loc, wf)
            d = "%r K=%.3f %s %s warping_free=%s" % (s, K, load, loc, wf)
            C1 = (c1[0] + c1[1] * K + c1[2] * K * K) / math.sqrt(1 + K * K)
            C2 = 0.0 if c2 is None else c2[0] + c2[1] * K + c2[2] * K * K
            z = C2 * za
            want = C1 * math.pi ** 2 * E * Iz / (2 * L) ** 2 * (math.sqrt(4 * s.Iw / Iz + (2 * L) ** 2 * G * It / (math.pi ** 2 * E * Iz) + z * z) - z)
            mon.close("cantilever", got, want, 1e-8, 0, d)
            mon.close("cantilever Ritz", got, mcr_ritz(E * Iz, G * It, E * Iz * hS ** 2 / 4, L, load, za, True, wf), 0.1 if loc == "bottom" else 0.045, 0, d)
    mon.nontrivial((repr(s), round(K, 1)))


def w_rules(r, mon):
    """the rule functions of EN 1993-1-1 used by the members"""
    fy = r.choice(list(FY.values()))
    mon.case(dict(fy=fy))
    for _ in range(12):
        lam = r.choice([r.uniform(0.01, 0.5), r.uniform(0.2, 1.2), r.uniform(0.8, 3)])
        a = r.choice(sorted(ec3.CURVES))
        mon.close("plain rules", en.buckling_reduction_factor(lam, en.buckling_curve[a]), ec3.chi(lam, ec3.CURVES[a]), 1e-9, 0, "%s %s" % (lam, a))
        A, W, fu = r.uniform(100, 1e5), r.uniform(1e3, 1e7), r.uniform(300, 700)
        mon.close("plain rules", [en.tension_resistance(A, fy), en.net_section_resistance(A, fu), en.compression_resistance(A, fy),
                                  en.bending_resistance(W, fy), en.shear_resistance(A, fy), en.slenderness(A, fy, W), en.buckling_strength(A, fy, 0.37),
                                  en.epsilon(fy)],
                  [A * fy, 0.9 * A * fu / 1.25, A * fy, W * fy, A * fy / math.sqrt(3), math.sqrt(A * fy / W), 0.37 * A * fy, math.sqrt(235 / fy)], 1e-9, 0, "")
        h, mm = r.uniform(1, 25), r.randint(1, 12)
        mon.close("plain rules", en.sway_imperfection(h, mm), 1 / 200 * min(1, max(2 / 3, 2 / math.sqrt(h))) * math.sqrt(0.5 * (1 + 1 / mm)), 1e-9, 0, "h=%s m=%s" % (h, mm))
        n, Cm, c = r.uniform(0, 1.1), r.uniform(0.4, 1), r.choice([1, 2, 3])
        d = "n=%s lam=%s Cm=%s class %s" % (n, lam, Cm, c)
        kyy = ec3.kyy(n, lam, Cm, c)
        mon.close("Table B.1", en.kyy(n, lam, Cm, c), kyy, 1e-9, 0, d + " kyy")
        for prof in ("hollow", "I"):
            mon.close("Table B.1", en.kzz(n, lam, Cm, c, prof), ec3.kzz(n, lam, Cm, c, prof == "hollow"), 1e-9, 0, d + " kzz " + prof)
        mon.close("Table B.1", en.kyz(kyy, c), kyy * (0.6 if c < 3 else 1.0), 1e-9, 0, d + " kyz")
        mon.close("Table B.1", en.kzy(kyy, n, lam, Cm, c), kyy * (0.6 if c < 3 else 0.8), 1e-9, 0, d + " kzy")
        mon.close("Table B.1", en.kzy(kyy, n, lam, Cm, c, susceptible_to_torsion=True), ec3.kzy_tors(n, lam, Cm, c), 1e-9, 0, d + " kzy tors")
        UMy, UMz, x = r.uniform(0, 1), r.uniform(0, 1), r.uniform(0.2, 1)
        mon.close("plain rules", en.beam_column_utility(n, UMy, kyy, x, UMz), n + kyy * UMy / x + UMz, 1e-9, 0, d)
        M = r.choice([1e3, 1e6, 1e8])
        Me = [r.choice([0, 1, -1, r.uniform(-1, 1)]) * M, r.choice([0, 1, -1, r.uniform(-1, 1)]) * M]
        Ms = r.choice([None, 0.0, 0.5 * sum(Me), M * r.uniform(-1, 1), M * r.uniform(-3, 3)])
        ld = r.choice(["uniform", "point"])
        if Ms is not None and Me[0] == -Me[1] and Me[0] != 0:
            continue            # the end that leads is a free choice
        if Ms is not None and 1e-7 < abs(Ms - 0.5 * sum(Me)) < 1e-3 or Ms == 0 and Me == [0, 0]:
            continue
        if all(abs(v) < 1e-6 for v in Me) and Ms is None:
            continue
        mon.close("Table B.3", en.equivalent_moment_factor(Me, Ms, ld), ec3.cm(Me, Ms, ld), 1e-9, 0, "M=%s Ms=%s %s" % (Me, Ms, ld))
        got = en.equivalent_moment_factor(Me, Ms, ld)
        mon.ok("Table B.3", 0.4 - 1e-12 <= got <= 1 + 1e-12 or got <= 1, "Cm=%s" % got)
        mon.close("Table B.3", en.equivalent_moment_factor([-v for v in Me], None if Ms is None else -Ms, ld), got, 1e-9, 0, "sign M=%s Ms=%s" % (Me, Ms))
        mon.close("Table B.3", en.equivalent_moment_factor(Me[::-1], Ms, ld), got, 1e-9, 0, "swap M=%s Ms=%s" % (Me, Ms))
    mon.nontrivial((fy, round(lam, 1)))


WORKLOADS = {"member": (w_member, 1500, 30000), "cantilever": (w_cantilever, 200, 5000), "rules": (w_rules, 500, 10000)}

if __name__ == "__main__":
    vm.main(globals())
