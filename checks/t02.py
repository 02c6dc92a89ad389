"""T02: steel in fire (EN 1993-1-2)."""
import os, sys, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vm
import numpy as np
from metku.eurocodes.en1993 import en1993_1_2 as F
from metku.materials import steel_data as SD
from metku.sections.steel.ISection import IPE, HEA, HEAA, HEB, HEM
from metku.sections.steel.RHS import RHS, SHS
from metku.sections.steel.CHS import CHS

PROPERTY = "T02"
RULE = ("one case is a random temperature (table points, their neighbours, between 100 and 200 degrees, outside the tables) and material, or a random section under a random fire; reduction factors are compared with Tables 3.1, C.1, D.1 and E.1 of EN 1993-1-2 re-entered from the standard, "
        "stress-strain curves with the ellipse of Figure 3.1 / Annex A / Annex C and with their own defining conditions (continuity, end points, tangents), thermal properties with 3.4 and C.3, steel temperature with an integration of the heat balance, and relations between histories (finer steps, hotter fire, slower section). "
        "Non-trivial: distinct (material, temperature interval, branch of the curve, fire, section type).")
MONITORS = ["reduction factors", "monotone factors", "strengths", "material methods", "carbon curve", "curve shape", "stainless curve", "thermal properties", "continuity", "gas temperature", "heat flux", "steel temperature", "heating relations", "section factors", "state"]

T12 = [20, 100, 200, 300, 400, 500, 600, 700, 800, 900, 1000, 1100, 1200]
TAB = {
    ("carbon", "ky"): (T12, [1, 1, 1, 1, 1, .78, .47, .23, .11, .06, .04, .02, 0]),
    ("carbon", "kp"): (T12, [1, 1, .807, .613, .42, .36, .18, .075, .05, .0375, .025, .0125, 0]),
    ("carbon", "kE"): (T12, [1, 1, .9, .8, .7, .6, .31, .13, .09, .0675, .045, .0225, 0]),
    ("carbon", "kp02"): (T12, [1, 1, .89, .78, .65, .53, .30, .13, .07, .05, .03, .02, 0]),
    ("1.4301", "k02"): (T12, [1, .82, .68, .64, .60, .54, .49, .40, .27, .14, .06, .03, 0]),
    ("1.4301", "ku"): (T12, [1, .87, .77, .73, .72, .67, .58, .43, .27, .15, .07, .03, 0]),
    ("1.4301", "kE"): (T12, [1, .96, .92, .88, .84, .80, .76, .71, .63, .45, .20, .10, 0]),
    ("1.4301", "kEct"): (T12, [.11, .05] + [.02] * 11),
    ("1.4301", "epsU"): (T12, [.40] * 6 + [.35, .30] + [.20] * 5),
    ("1.4301", "ky"): (T12, [.26, .24, .19, .19, .19, .19, .22, .26, .35, .38, .40, .40, .40]),
    ("bolts", "kb"): ([20, 100, 150, 200, 300, 400, 500, 600, 700, 800, 900, 1000], [1, .968, .952, .935, .903, .775, .55, .22, .1, .067, .033, 0]),
}


def k(steel, prop, t):
    return float(np.interp(t, *TAB[(steel, prop)]))


def temp(r, lo=20.0, hi=1200.0):
    s = r.random()
    if s < 0.3:
        t = float(r.choice(T12 + [150]))
    elif s < 0.45:
        t = r.choice(T12 + [150]) + r.choice([-1, 1]) * r.choice([1e-9, 1e-4, 0.5])
    elif s < 0.6:
        t = r.uniform(100, 200)
    else:
        t = r.uniform(20, 1200)
    return min(max(t, lo), hi)


def w_factors(r, mon):
    t = temp(r, 0.0, 1300.0)
    if r.random() < 0.1:
        t = r.choice([0.0, 10.0, 1000.5, 1200.5, 1300.0])
    if r.random() < 0.3:
        t = int(round(t))
    mon.case(dict(t=t))
    for (steel, prop), _ in TAB.items():
        mon.close("reduction factors", F.reduce_property(t, prop, steel), k(steel, prop, t), 1e-9, 1e-9, "%s %s at %r" % (steel, prop, t))
    t2 = t + r.uniform(0, 150)
    for key in [("carbon", "ky"), ("carbon", "kp"), ("carbon", "kE"), ("carbon", "kp02"), ("1.4301", "k02"), ("1.4301", "ku"), ("1.4301", "kE"), ("bolts", "kb")]:
        a, b = F.reduce_property(t, key[1], key[0]), F.reduce_property(t2, key[1], key[0])
        mon.ok("monotone factors", b <= a + 1e-12 and 0 <= b <= 1 and 0 <= a <= 1, "%s at %r %r: %r %r" % (key, t, t2, a, b))
    fy, fu, E = r.uniform(200, 700), r.uniform(300, 800), r.uniform(190e3, 210e3)
    mon.close("strengths", [F.EaT(t, E), F.fyT(t, fy), F.fpT(t, fy)], [k("carbon", "kE", t) * E, k("carbon", "ky", t) * fy, k("carbon", "kp", t) * fy], 1e-9, 1e-7, "carbon steel at %r" % t)
    mon.close("strengths", F.EaT(t, E, "1.4301"), k("1.4301", "kE", t) * E, 1e-9, 1e-6, "E of stainless")
    mon.close("strengths", F.f02pT(t, fy), k("1.4301", "k02", t) * fy, 1e-9, 1e-9, "f02p of stainless")
    mon.close("strengths", F.f02pT(t, fy, "1.4301"), k("1.4301", "k02", t) * fy, 1e-9, 1e-9, "f02p of stainless")
    mon.close("strengths", F.kbT(t), k("bolts", "kb", t), 1e-9, 1e-9, "bolts")
    fyt = k("carbon", "ky", t) * fy
    a = 1.25 if t < 300 else (2 - 0.0025 * t if t < 400 else 1.0)
    mon.close("strengths", F.fuT(t, fyt), a * fyt, 1e-9, 1e-9, "fu with hardening at %r" % t)
    mon.close("strengths", F.fuT(t, fu, "1.4301"), k("1.4301", "ku", t) * fu, 1e-9, 1e-9, "fu of stainless")
    g = r.choice(sorted(SD.steels))
    s = SD.Steel(g)
    mon.close("material methods", [s.Etemp(t), s.fy_temp(t), s.fp_temp(t)], [k("carbon", "kE", t) * s.E, k("carbon", "ky", t) * s.fy, k("carbon", "kp", t) * s.fy], 1e-9, 1e-7, "%s at %r" % (g, t))
    mon.close("material methods", s.fu_temp(t), a * k("carbon", "ky", t) * s.fy, 1e-9, 1e-9, "fu_temp %s at %r" % (g, t))
    if r.random() < 0.2:
        mon.close("strengths", [F.EaT(t), F.fyT(t), F.fpT(t)], [k("carbon", "kE", t) * 210000, k("carbon", "ky", t) * 355, k("carbon", "kp", t) * 355], 1e-9, 1e-7, "defaults")
    mon.nontrivial(("factors", round(t / 25), t in T12))


def sigma(eps, t, E, fy, hard):
    Et, fp, fyt = k("carbon", "kE", t) * E, k("carbon", "kp", t) * fy, k("carbon", "ky", t) * fy
    ep = fp / Et
    a = 1.25 if t < 300 else (2 - 0.0025 * t if t < 400 else 1.0)
    fu = a * fyt if hard else fyt
    if eps <= ep:
        return Et * eps, "elastic"
    if eps < 0.02:
        c = (fyt - fp) ** 2 / ((0.02 - ep) * Et - 2 * (fyt - fp))
        a2 = (0.02 - ep) * (0.02 - ep + c / Et)
        b2 = c * (0.02 - ep) * Et + c * c
        return fp - c + math.sqrt(b2 / a2 * (a2 - (0.02 - eps) ** 2)), "ellipse"
    if eps <= 0.15:
        if hard and eps < 0.04:
            return fyt + (fu - fyt) * (eps - 0.02) / 0.02, "hardening"
        return fu, "plateau"
    if eps < 0.20:
        return fu * (0.20 - eps) / 0.05, "descending"
    return 0.0, "broken"


def w_carbon(r, mon):
    t = temp(r, 20.0, 1190.0)
    if r.random() < 0.3:
        t = r.uniform(20, 450)
    hard = r.random() < 0.5
    g = r.choice(sorted(SD.steels))
    s = SD.Steel(g)
    E, fy = s.E, s.fy
    Et, fp, fyt = k("carbon", "kE", t) * E, k("carbon", "kp", t) * fy, k("carbon", "ky", t) * fy
    ep = fp / Et
    mon.case(dict(t=t, grade=g, hardening=hard))
    pts = [0.0, ep / 2, ep, 0.02, 0.04, 0.15, 0.2, 0.25, r.uniform(0, ep), r.uniform(0.15, 0.2), r.uniform(0.02, 0.15), r.uniform(0.02, 0.04)] + [r.uniform(ep, 0.02) for _ in range(3)]
    last = -1.0
    for e in sorted(pts):
        w, br = sigma(e, t, E, fy, hard)
        got = s.stress_temp(e, t, hard)
        mon.close("carbon curve", got, w, 1e-7, 1e-7, "%s %s strain %g t %r" % (g, br, e, t))
        mon.close("carbon curve", F.stress(e, t, E, fy, hard), w, 1e-7, 1e-7, "stress() %s strain %g" % (br, e))
        if e <= 0.15:
            mon.ok("curve shape", got >= last - 1e-7, "stress decreases at %g: %g %g" % (e, last, got))
            last = got
        mon.nontrivial(("carbon", hard, br, round(t / 50)))
    mon.close("carbon curve", s.stress_temp(0.01, t), sigma(0.01, t, E, fy, False)[0], 1e-7, 1e-7, "default without hardening")
    d = 1e-10
    for e in (ep, 0.02, 0.04, 0.15, 0.20):
        a, b = s.stress_temp(e - d, t, hard), s.stress_temp(e + d, t, hard)
        mon.ok("curve shape", abs(a - b) <= 1e-5 * fy + 1e-3, "jump at %g: %g %g (t=%r)" % (e, a, b, t))
    mon.close("curve shape", s.stress_temp(0.02, t, hard), fyt, 1e-9, 1e-9, "yield strength at 2 % strain")
    if ep < 0.019 and fyt > fp * 1.2:
        h = 1e-8
        mon.close("curve shape", (s.stress_temp(ep + h, t, hard) - fp) / h / Et, 1.0, 5e-3, 0, "tangent at the proportional limit")
        mon.ok("curve shape", abs(s.stress_temp(0.02 - h, t, hard) - fyt) / h < 2e-3 * Et, "horizontal tangent at 2 %")
    # hotter steel is not stiffer
    t2 = min(t + r.uniform(0, 200), 1199.0)
    e = r.uniform(0, 0.15)
    mon.ok("curve shape", s.stress_temp(e, t2, hard) <= s.stress_temp(e, t, hard) + 1e-7, "stress grows with temperature %r %r at %g" % (t, t2, e))


def w_stainless(r, mon):
    t = temp(r, 20.0, 1150.0)
    st = SD.StainlessSteel("1.4301", r.choice(["cold_strip", "hot_strip", "hot_plate", "sections"]))
    mon.case(dict(t=t, product=st.product))
    E = st.E
    f02, fu, Et, Ect, eu = k("1.4301", "k02", t) * st.fy, k("1.4301", "ku", t) * st.fu, k("1.4301", "kE", t) * E, k("1.4301", "kEct", t) * E, k("1.4301", "epsU", t)
    ec = f02 / Et + 0.002
    if (eu - ec) * Ect <= 2 * (fu - f02) * 1.01:
        raise vm.CaseSkip("curve not defined")
    b = (1 - ec * Ect / f02) * Et * ec / ((Et * ec / f02 - 1) * f02)
    a = (Et * ec - f02) / (f02 * ec ** b)
    e_ = (fu - f02) ** 2 / ((eu - ec) * Ect - 2 * (fu - f02))
    c2, d2 = (eu - ec) * (eu - ec + e_ / Ect), e_ * (eu - ec) * Ect + e_ ** 2

    def ref(x):
        if x <= ec:
            return Et * x / (1 + a * x ** b)
        return f02 - e_ + math.sqrt(d2 / c2 * max(c2 - (eu - x) ** 2, 0))
    for x in [ec, ec / 2, eu, ec * 1.0001] + [r.uniform(0, ec) for _ in range(3)] + [r.uniform(ec, eu) for _ in range(4)]:
        mon.close("stainless curve", F.stress_stainless(x, t, E, st.fy, st.fu), ref(x), 1e-7, 1e-7, "strain %g t %r" % (x, t))
    mon.close("curve shape", F.stress_stainless(ec, t, E, st.fy, st.fu), f02, 1e-9, 1e-9, "proof strength at its strain")
    mon.close("curve shape", F.stress_stainless(eu, t, E, st.fy, st.fu), fu, 1e-9, 1e-9, "ultimate strength at ultimate strain")
    h = 1e-8
    if b > 0.8:
        mon.close("curve shape", F.stress_stainless(h, t, E, st.fy, st.fu) / h / Et, 1.0, 1e-2, 0, "initial tangent")
    if t <= 600:
        h = 1e-7
        for q in (-1, 1):
            mon.close("curve shape", (F.stress_stainless(ec + q * h, t, E, st.fy, st.fu) - f02) / (q * h), Ect, 1e-2, Et * 1e-5, "tangent at the proof strength")
    mon.nontrivial(("stainless", st.product, round(t / 50)))


def spec_heat(t):
    if t < 600:
        return 425 + 0.773 * t - 1.69e-3 * t ** 2 + 2.22e-6 * t ** 3
    if t < 735:
        return 666 + 13002 / (738 - t)
    if t < 900:
        return 545 + 17820 / (t - 731)
    return 650.0


def spec_heat_ss(t):
    return 450 + 0.28 * t - 2.91e-4 * t ** 2 + 1.34e-7 * t ** 3


def w_thermal(r, mon):
    s = r.random()
    t = float(r.choice([20, 600, 735, 750, 800, 860, 900, 1200])) if s < 0.3 else r.uniform(20, 1200)
    mon.case(dict(t=t))
    if t < 750:
        dl = 1.2e-5 * t + 0.4e-8 * t * t - 2.416e-4
    elif t <= 860:
        dl = 1.1e-2
    else:
        dl = 2e-5 * t - 6.2e-3
    mon.close("thermal properties", F.therm_elongation(t), dl, 1e-9, 1e-15, "elongation at %g" % t)
    mon.close("thermal properties", F.therm_conductivity(t), 54 - 3.33e-2 * t if t < 800 else 27.3, 1e-9, 0, "conductivity at %g" % t)
    mon.close("thermal properties", F.spec_heat(t), spec_heat(t), 1e-9, 0, "specific heat at %g" % t)
    mon.close("thermal properties", F.therm_elongation_stainless(t), (16 + 4.79e-3 * t - 1.243e-6 * t * t) * (t - 20) * 1e-6, 1e-9, 1e-15, "elongation of stainless")
    mon.close("thermal properties", F.therm_conductivity_stainless(t), 14.6 + 1.27e-2 * t, 1e-9, 0, "conductivity of stainless")
    mon.close("thermal properties", F.spec_heat_stainless(t), spec_heat_ss(t), 1e-9, 0, "specific heat of stainless")
    mon.close("thermal properties", [F.therm_elongation(20.0), F.therm_elongation_stainless(20.0)], [0, 0], 0, 1e-12, "no elongation at 20 degrees")
    for lim, tol in ((600, 5e-3), (735, 1e-3), (900, 1e-2)):
        a, b = F.spec_heat(lim - 1e-9), F.spec_heat(lim + 1e-9)
        mon.close("continuity", a, b, tol, 0, "specific heat at %d" % lim)
    for f, lim, tol in ((F.therm_elongation, 750, 1e-2), (F.therm_elongation, 860, 1e-2), (F.therm_conductivity, 800, 5e-3)):
        mon.close("continuity", f(lim - 1e-9), f(lim + 1e-9), tol, 0, "jump at %d" % lim)
    t2 = t + r.uniform(0, 100)
    mon.ok("continuity", F.therm_elongation(t2) >= F.therm_elongation(t) - 5e-5, "elongation decreases")
    mins = r.choice([0.0, r.uniform(0, 1), r.uniform(0, 240)])
    mon.close("gas temperature", F.standard_fire(mins), 20 + 345 * math.log10(8 * mins + 1), 1e-9, 0, "ISO 834 at %g min" % mins)
    mon.close("gas temperature", F.hydrocarbon_fire(mins), 20 + 1080 * (1 - 0.325 * math.exp(-0.167 * mins) - 0.675 * math.exp(-2.5 * mins)), 1e-9, 1e-9, "hydrocarbon fire at %g min" % mins)
    tg, ts = r.uniform(20, 1200), r.uniform(20, 1200)
    phi, ef, em, ac = r.uniform(0, 1), r.uniform(0.5, 1), r.uniform(0.2, 1), r.choice([4, 9, 25, 35, 50])
    sb = 5.67e-8
    mon.close("heat flux", F.hnet(tg, ts, phi, ef, em, ac), ac * (tg - ts) + phi * ef * em * sb * ((tg + 273) ** 4 - (ts + 273) ** 4), 1e-9, 1e-6, "net heat flux")
    mon.close("heat flux", F.hnet(tg, ts), 25 * (tg - ts) + 0.7 * sb * ((tg + 273) ** 4 - (ts + 273) ** 4), 1e-9, 1e-6, "default net heat flux")
    mon.close("heat flux", F.hnet(tg, tg, phi, ef, em, ac), 0, 0, 1e-9, "equal temperatures")
    mon.nontrivial(("thermal", round(t / 20), round(mins)))


def integrate(gas, kAV, tmax, ac, em, c, dt, T0):
    T, out, n = T0, [T0], 0
    while n * dt < tmax - 1e-9:
        g = gas(n * dt / 60)
        q = ac * (g - T) + em * 5.67e-8 * ((g + 273) ** 4 - (T + 273) ** 4)
        T = T + kAV / (c(T) * 7850) * q * dt
        out.append(T)
        n += 1
    return out


def sections(r):
    s = r.random()
    if s < 0.6:
        C = r.choice([IPE, HEA, HEB, HEM, HEAA])
        h = {IPE: [100, 140, 200, 300, 450, 600], HEAA: [200, 300, 400]}.get(C, [100, 140, 200, 300, 450, 600])
        return C(r.choice(h))
    if s < 0.8:
        b = r.choice([80, 100, 150, 200])
        return SHS(b, r.choice([4, 5, 6.3, 8]))
    if s < 0.9:
        return RHS(r.choice([120, 150, 200]), r.choice([80, 100]), r.choice([4, 5, 6, 8]))
    return CHS(r.choice([88.9, 114.3, 168.3]), r.choice([4, 5, 6]))


def w_heating(r, mon):
    p = sections(r)
    mon.case(dict(section=repr(p)))
    mon.close("section factors", p.section_factor, p.Au / p.A * 1e3, 1e-9, 0, "A/V of %r" % p)
    I = isinstance(p, (IPE, HEA, HEB, HEM, HEAA))
    if I:
        mon.close("section factors", p.box_section_factor, 2 * (p.b + p.h) / p.A * 1e3, 1e-9, 0, "box of %r" % p)
        ksh = 0.9 * 2 * (p.b + p.h) / p.Au
        mon.ok("section factors", 0.4 < p.shadow_effect() < 0.9, "shadow factor %r of %r" % (p.shadow_effect(), p))
    else:
        mon.close("section factors", p.box_section_factor, p.section_factor, 1e-9, 0, "box of %r" % p)
        ksh = 1.0
    mon.close("section factors", p.shadow_effect(), ksh, 1e-9, 0, "shadow factor of %r" % p)
    kAV = ksh * p.Au / p.A * 1e3
    # an other steel does not change the factors
    stain = r.random() < 0.4
    fn = F.stainless_steel_temp if stain else F.steel_temp
    c, em = (spec_heat_ss, 0.4) if stain else (spec_heat, 0.7)
    name = r.choice(["standard", "default", "hydrocarbon", "callable", "constant"])
    Tc, rate = r.uniform(200, 900), r.uniform(1, 30)
    gas = {"standard": F.standard_fire, "default": F.standard_fire, "hydrocarbon": F.hydrocarbon_fire,
           "callable": lambda m: 20 + rate * m, "constant": lambda m: Tc}[name]
    rgas = {"standard": lambda m: 20 + 345 * math.log10(8 * m + 1), "hydrocarbon": lambda m: 20 + 1080 * (1 - 0.325 * math.exp(-0.167 * m) - 0.675 * math.exp(-2.5 * m))}
    rgas["default"] = rgas["standard"]
    ac = 50 if name == "hydrocarbon" else 25
    dt = r.choice([1, 2.5, 5, 5])
    T0 = r.choice([20, 20, r.uniform(5, 60)])
    tmax = r.choice([5, 15, 30, 60, r.uniform(3, 60)]) * 60
    kw = {}
    if name != "default":
        kw["gas_temp"] = gas
    if dt != 5:
        kw["dt"] = dt
    if T0 != 20:
        kw["Tsteel_ini"] = T0
    got, times = fn(ksh, p.section_factor, tmax, **kw)
    mon.case(dict(section=repr(p), fire=name, dt=dt, T0=T0, tmax=tmax, stainless=stain))
    want = integrate(rgas.get(name, gas), kAV, tmax, ac, em, c, dt, T0)
    n = int(math.ceil(tmax / dt - 1e-9))
    # near the phase change of steel small errors grow: relative 1e-6 of an identical scheme
    mon.ok("steel temperature", len(got) == len(times) == n + 1, "number of steps %d %d, expected %d" % (len(got), len(times), n + 1))
    m = min(len(got), len(want))
    mon.close("steel temperature", got[:m], want[:m], 1e-6, 1e-4, "%s %s dt=%g" % (fn.__name__, name, dt))
    mon.close("steel temperature", times, [i * dt / 60 for i in range(len(times))], 1e-9, 1e-9, "times in minutes")
    if T0 == 20 and kAV < 400:
        ok = all(b >= a - 1e-6 for a, b in zip(got, got[1:]))
        mon.ok("heating relations", ok, "steel cools in a growing fire")
        mx = max(gas(x) for x in times)
        mon.ok("heating relations", max(got) <= mx + 1e-6, "steel hotter than the gas: %g %g" % (max(got), mx))
    f = r.uniform(1.05, 2)
    slow = fn(ksh, p.section_factor / f, tmax, **kw)[0]
    if T0 == 20 and kAV < 400:
        mon.ok("heating relations", slow[-1] <= got[-1] + 1e-3, "smaller section factor heats faster: %g %g" % (slow[-1], got[-1]))
    mon.close("heating relations", fn(ksh / f, p.section_factor, tmax, **kw)[0][-1], slow[-1], 1e-6, 1e-4, "shadow factor and section factor are a product")
    if dt == 5 and 50 < kAV < 250:
        kw2 = dict(kw, dt=1)
        fine, tf = fn(ksh, p.section_factor, tmax, **kw2)
        # same instant in both
        i = min(len(got) - 1, (len(fine) - 1) // 5)
        mon.close("heating relations", fine[5 * i], got[i], 0.02, 3.0, "result depends on the time step (dt=1 and 5)")
    again = fn(ksh, p.section_factor, tmax, **kw)[0]
    mon.ok("state", again == got and F.REDUCTION_FACTORS_CS[600]["ky"] == 0.47, "second call differs")
    mon.nontrivial(("heating", type(p).__name__, name, stain, round(got[-1] / 100)))


WORKLOADS = {
    "factors": (w_factors, 8000, 150000),
    "carbon": (w_carbon, 6000, 120000),
    "stainless": (w_stainless, 5000, 100000),
    "thermal": (w_thermal, 5000, 100000),
    "heating": (w_heating, 1500, 30000),
}

if __name__ == "__main__":
    vm.main(globals())
