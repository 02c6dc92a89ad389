"""W01: timber sections: geometry of prismatic and tapered beams, charring in fire."""
import os, sys, math, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vm
import numpy as np
from metku.materials.timber_data import Timber, T
from metku.eurocodes.en1995 import en1995_1_2 as fire
from metku.eurocodes.en1995 import fire_protection as FP
from metku.sections.timber import timber_section as TS

PROPERTY = "W01"
RULE = ("one case is a fire protection and a charring rate with the charred depth asked at many times (also exactly at the times where the rate changes), or one to three timber sections alive together (prismatic, single and double tapered, belly, curved, pitched cambered; solid timber, hardwood, glued laminated timber, LVL; "
        "any combination of protected sides, shared protection objects, three or four sides on fire) taken through random changes of dimensions, angles, radius, apex, material, protections and fire time, with height, width, area, second moments and section moduli queried along the beam in random order; compared with the time integral of the charring rates and the geometry evaluated from scratch. "
        "Non-trivial: distinct (kind of beam, timber type, protections, phase of charring, last change).")
MONITORS = ["charred depth", "charring monotone", "charring continuous", "charring rate", "height", "width", "area", "second moment", "section modulus", "profile of height", "apex height", "face area", "protection times", "elements", "independence"]

SOLID = [t for t in T if t.name[0] in "CD"]
GLT = [t for t in T if t.name.startswith("GL")]
LVL = [t for t in T if t.name.startswith("Kerto")]
BOARDS = {"A": (22, 13), "F": (28, 19), "H": (11, 2), "AA": (40, 31), "FF": (61, 52), "HH": (23, 14), "AF": (46, 37)}


def rates(t):
    """charring rates (one-dimensional, notional) of a timber grade, EN 1995-1-2 table 3.1"""
    if t.name[0] == "D":
        return 0.5, 0.55        # hardwood over 450 kg/m3
    if t.name[0] == "C":
        return 0.65, 0.8
    if t.name.startswith("GL"):
        return 0.65, 0.7
    return (0.7, 0.75) if t is T.Kerto_T else (0.65, 0.7)


RHOK = {"C14": 290, "C16": 310, "C18": 320, "C20": 330, "C22": 340, "C24": 350, "C27": 370, "C30": 380, "C35": 400, "C40": 420}


class Prot:
    """specification of a fire protection"""

    def __init__(self, r):
        k = r.choice(["board", "board", "board", "wood", "own", "own"])
        self.k = k
        if k == "board":
            self.name = r.choice(list(BOARDS))
            self.gap = r.choice([0, 1, 2, 3])
            self.tch = BOARDS[self.name][0 if self.gap < 2 else 1]
            self.make = lambda: getattr(FP, "GypsumPlasterboard" + self.name)(self.gap)
            self.tf = None if self.name in ("F", "FF", "AF") else self.tch
        elif k == "wood":
            g, hp = r.choice([T.C24, T.C18, T.GL30c, T.D40]), r.choice([20, 25, 32, 45, r.uniform(10, 50)])
            self.name = "wood"
            b0 = rates(g)[0]
            if hp < 20:
                b0 *= math.sqrt(450 / {T.C24: 350, T.C18: 320, T.GL30c: 390, T.D40: 550}[g]) * math.sqrt(20 / hp)
            self.tch = self.tf = hp / b0
            arg = g if r.random() < 0.5 else Timber(g)
            self.make = lambda: FP.WoodenFireProtection(arg, hp)
        else:
            self.name = "own"
            self.tch = r.choice([5, 10, 15, 20, 30, r.uniform(3, 60)])
            self.tf = self.tch + r.choice([0, 5, 10, 15, 30, r.uniform(0, 40)])
            self.make = lambda: FP.FireProtection(self.tch, r.choice([9, 13, 15, 25]), self.tf)
        self.obj = self.make()

    def times(self, bn):
        tf = self.tf if self.tf is not None else self.tch + 12.5 / (0.73 * bn)
        return self.tch, tf, min(2 * tf, tf + 12.5 / bn)


def char(p, bn, t):
    """notional charred depth and zero strength layer of one side at time t"""
    if p is None:
        return bn * t + 7 * min(1.0, t / 20)
    tch, tf, ta = p.times(bn)
    d = 0.0
    for a, b, q in ((tch, tf, 0.73), (tf, ta, 2.0), (ta, math.inf, 1.0)):
        d += q * bn * max(0.0, min(t, b) - a)
    k0 = min(1.0, t / 20) if tch <= 20 else min(1.0, t / tch)
    return d + 7 * k0


def w_charring(r, mon):
    g = r.choice(list(T))
    b0, bn = rates(g)
    m = Timber(g)
    if r.random() < 0.3:
        hard = r.choice(["softwood", "hardwood"])
        rho = r.choice([290, 449, 450, 460, r.uniform(290, 700)])
        typ = r.choice(["solid_timber", "glt"])
        want = (0.65, 0.8 if typ == "solid_timber" else 0.7) if hard == "softwood" else ((0.5, 0.55) if rho >= 450 else (0.65, 0.7))
        mon.close("charring rate", fire.charring_speed(rho, typ, hard, 100), want, 1e-12, 0, "charring rate of %s %s %g" % (typ, hard, rho))
    p = Prot(r) if r.random() < 0.85 else None
    mon.case(dict(grade=g.name, prot=p and p.name, tch=p and p.tch, tf=p and p.tf))
    mon.close("charring rate", fire.charring_speed(m.rhok, m.type, m.hardness, r.uniform(40, 300)), (b0, bn), 1e-12, 0, "charring rate of %s" % g.name)
    # a section fits the protection to its own material
    s = TS.TimberSection(200, 400, g, fire_protection_bottom=p.obj if p else None)
    fp = s.fire_protection_bottom
    ts = [0, 10, 20, 30, 45, 60, 90, 120] + [r.uniform(0, 130) for _ in range(6)]
    phases = []
    if p:
        x = p.times(bn)
        mon.close("protection times", [fp.t_ch, fp.t_f, fp.t_a], x, 1e-12, 1e-12, "start of charring, failure and end of double rate")
        phases = list(x)
        ts += [y + e for y in x for e in (0, -1e-9, 1e-9)]
    ts = sorted(t for t in ts if t >= 0)
    d = [fire.d_char_n(fp, t, bn) for t in ts]
    mon.close("charred depth", d, [char(p, bn, t) for t in ts], 1e-9, 1e-6, "charred depth at %r" % ts)
    mon.ok("charring monotone", all(b >= a - 1e-9 for a, b in zip(d, d[1:])), "charred depth decreases: %r at %r" % (d, ts))
    for y in phases:
        a, b = fire.d_char_n(fp, max(0, y - 1e-9), bn), fire.d_char_n(fp, y, bn)
        mon.ok("charring continuous", abs(a - b) < 1e-6, "depth jumps from %g to %g at %g min" % (a, b, y))
    mon.nontrivial(("char", g.name, p and p.name))


# -- sections ---------------------------------------------------------------------------------------------------------
KINDS = ["prism", "mono", "ridge", "belly", "curved", "cambered"]


class Spec:
    pass


class Parent:
    pass


def height(s, x):
    """height of the unburnt beam at relative position x"""
    if s.kind == "prism":
        return s.H
    if s.kind == "mono":
        return s.H + (s.Hap - s.H) * x
    if s.kind == "ridge":
        return np.interp(x, [0, s.xap, 1], [s.H, s.Hap, s.H])
    if s.kind == "belly":
        a = math.radians(s.alpha)
        return np.interp(x, [0, s.xap, 1], [s.H, s.H + math.tan(a) * s.xap * s.L, s.H]) / math.cos(a)
    u = min(x, 1 - x) * s.L

    def edge(deg):
        a = math.radians(deg)
        xt = 0.5 * s.L - s.r * math.sin(a)
        if u <= xt:
            return u * math.tan(a)
        # circle tangent to the straight edge at xt
        return xt * math.tan(a) + math.sqrt(s.r ** 2 - (0.5 * s.L - u) ** 2) - s.r * math.cos(a)
    top = edge(s.alpha) if s.kind == "curved" else u * math.tan(math.radians(s.alpha))
    return s.H + top - edge(s.beta)


def face(s):
    """area of the side face by adaptive splitting at the tangent points"""
    pts = {0.0, 0.5, 1.0}
    for d in (s.alpha, s.beta):
        q = s.r * math.sin(math.radians(d)) / s.L
        pts |= {0.5 - q, 0.5 + q}
    pts = sorted(p for p in pts if 0 <= p <= 1)
    xg, wg = np.polynomial.legendre.leggauss(30)
    tot = 0.0
    for a, b in zip(pts, pts[1:]):
        tot += 0.5 * (b - a) * sum(w * height(s, 0.5 * (a + b) + 0.5 * (b - a) * x) for x, w in zip(xg, wg))
    return tot * s.L


def prots(r, pool):
    kw, sp = {}, {}
    gen = r.choice(pool) if pool and r.random() < 0.6 else None
    sides = r.choice([3, 3, 4])
    for k in ("right", "left", "top", "bottom"):
        p = r.choice(pool) if pool and r.random() < 0.25 else None
        if p:
            kw["fire_protection_" + k] = p.obj
        sp[k] = p if p else (None if k == "top" and sides == 3 else gen)
    if gen:
        kw["fire_protection_generic"] = gen.obj
    kw["fire_protection_sides"] = sides
    return kw, sp, sides


def build(r, pool):
    s = Spec()
    s.kind = r.choice(KINDS)
    s.mat = r.choice([r.choice(SOLID), r.choice(GLT), r.choice(LVL)])
    s.B = r.choice([90.0, 115.0, 140.0, 190.0, r.uniform(80, 300)])
    s.H = r.choice([270.0, 405.0, 630.0, r.uniform(200, 1000)])
    kw, s.fp, s.sides = prots(r, pool)
    s.onfire = r.choice([3, 3, 4])
    kw["sides_on_fire"] = s.onfire
    s.lvldir = r.choice(["edge", "flat"])
    kw["lvldir"] = s.lvldir
    s.R = 0
    s.L = r.uniform(4000, 30000)
    kw["material"] = s.mat
    if s.kind == "prism":
        o = TS.TimberSection(s.B, s.H, **kw)
    elif s.kind == "mono":
        s.Hap = s.H * r.uniform(0.5, 2.5)
        o = TS.PulpettiPalkki(s.B, s.H, s.Hap, **kw)
    elif s.kind == "ridge":
        s.Hap, s.xap = s.H * r.uniform(1, 2.5), r.choice([0.5, r.uniform(0.2, 0.8)])
        o = TS.HarjaPalkki(s.B, s.H, s.Hap, s.xap, **kw)
    elif s.kind == "belly":
        s.alpha, s.xap = r.uniform(1, 8), r.choice([0.5, r.uniform(0.3, 0.7)])
        o = TS.MahaPalkki(s.B, s.H, s.alpha, s.xap, **kw)
    else:
        s.beta = r.uniform(2, 14)
        s.alpha = s.beta + r.choice([0, r.uniform(0, 5)])
        s.r = r.uniform(0.2, 0.45) * s.L / math.sin(math.radians(s.alpha))
        o = (TS.KaarevaPalkki if s.kind == "curved" else TS.KaarevaHarjaPalkki)(s.B, s.H, s.alpha, s.beta, s.r, **kw)
    if s.kind in ("belly", "curved", "cambered"):
        o.parent = Parent()
        o.parent.length = s.L
        if s.kind != "belly":
            o.update_circles()
    if s.kind != "prism":
        o.num_elements = r.randint(1, 6)
        o.create_elements()
    return s, o


def change(r, s, o, pool):
    ks = ["B", "H", "material", "R", "R", "R"]
    if pool:
        ks += ["generic", "side"]
    ks += ["onfire"]
    if s.kind != "prism":
        ks += ["H0"]
    ks += {"mono": ["Hap"], "ridge": ["Hap", "Xap"], "belly": ["Xap"], "curved": ["Alpha", "Beta", "R_in"], "cambered": ["Alpha", "Beta", "R_in"]}.get(s.kind, [])
    k = r.choice(ks)
    if k == "B":
        s.B = r.uniform(80, 300)
        o.B = s.B
    elif k == "H":
        if s.kind == "cambered":
            k = "H0"
        elif s.kind == "curved":
            return None         # the height of a curved beam is set by H0
    if k in ("H", "H0") and s.kind == "ridge" and s.Hap < 250:
        return None
    hmax = s.Hap if s.kind == "ridge" else 1000     # a ridge beam is not lower at its ridge
    if k == "H":
        s.H = r.uniform(200, hmax)
        o.H = s.H
    elif k == "H0":
        s.H = r.uniform(200, hmax)
        o.H0 = s.H
    elif k == "Hap":
        s.Hap = s.H * r.uniform(1.0 if s.kind == "ridge" else 0.6, 2.5)
        o.Hap = s.Hap
    elif k == "Xap":
        s.xap = r.uniform(0.3, 0.7)
        o.Xap = s.xap
    elif k in ("Alpha", "Beta", "R_in"):
        al, be, rr = s.alpha, s.beta, s.r
        if k == "Alpha":
            al = be + r.uniform(0, 5)
        elif k == "Beta":
            be = al - r.uniform(0, min(al - 1, 5))
        else:
            rr *= r.uniform(0.7, 1.3)
        if rr * math.sin(math.radians(al)) > 0.48 * s.L:
            return None
        s.alpha, s.beta, s.r = al, be, rr
        setattr(o, k, {"Alpha": al, "Beta": be, "R_in": rr}[k])
    elif k == "material":
        s.mat = r.choice(list(T))
        o.material = s.mat
    elif k == "R":
        s.R = r.choice([0, 15, 20, 30, 45, 60, 90, r.uniform(0, 90)])
        o.R = s.R
    elif k == "generic":
        p = r.choice(pool + [None])
        o.fire_protection_generic = p.obj if p else None
        for q in ("right", "left", "bottom") + (("top",) if s.sides != 3 else ()):
            s.fp[q] = p
    elif k == "side":
        q = r.choice(["right", "left", "top", "bottom"])
        p = r.choice(pool + [None])
        setattr(o, "fire_protection_" + q, p.obj if p else None)
        s.fp[q] = p
    elif k == "onfire":
        s.onfire = r.choice([3, 4])
        o.sides_on_fire = s.onfire
    return k


def section(s, x):
    bn = rates(s.mat)[1]
    c = {k: char(p, bn, s.R) for k, p in s.fp.items()}
    b = max(s.B - c["right"] - c["left"], 1e-5)
    h = max(height(s, x) - c["bottom"] - (c["top"] if s.onfire == 4 else 0), 1e-5)
    return b, h


def query(r, s, o, mon, full):
    qs = [r.choice([0.0, 1.0, 0.5, r.random(), r.random()]) for _ in range(8 if full else 2)]
    for x in qs:
        b, h = section(s, x)
        if min(b, h) < 1e-3:
            # the whole section has charred: dimensions are only positive stand-ins
            mon.ok("height", o.get_H(x) < 1e-2 if h < 1e-3 else True, "height of a charred section")
            continue
        mon.close("width", o.B, b, 1e-9, 1e-9, "width")
        mon.close("profile of height", o.get_H(x), h, 1e-9, 1e-6, "height at %g" % x)
        mon.close("area", o.get_A(x), b * h, 1e-9, 1e-4, "area at %g" % x)
        mon.close("second moment", o.get_I(x), [b * h ** 3 / 12, h * b ** 3 / 12], 1e-8, 1e-2, "I at %g" % x)
        mon.close("section modulus", o.get_Wel(x), [b * h * h / 6, h * b * b / 6], 1e-8, 1e-3, "W at %g" % x)
    b, h = section(s, 0.0)
    if min(b, h) >= 1e-3 and s.kind != "belly":
        mon.close("height", o.H, h, 1e-9, 1e-6, "height at the start")
        mon.close("area", o.A, b * h, 1e-9, 1e-4, "area at the start")
        mon.close("second moment", o.I, [b * h ** 3 / 12, h * b ** 3 / 12], 1e-8, 1e-2, "I at the start")
        mon.close("section modulus", o.Wel, [b * h * h / 6, h * b * b / 6], 1e-8, 1e-3, "W at the start")
    if s.kind in ("mono", "ridge"):
        mon.close("apex height", o.Hap, s.Hap, 1e-9, 1e-9, "apex height")
    elif s.kind == "belly":
        bb, hh = section(s, s.xap)
        if hh > 1e-3:
            mon.close("apex height", o.Hap, hh, 1e-9, 1e-6, "apex height")
    elif s.kind in ("curved", "cambered") and s.R == 0:
        o.update_circles()
        mon.close("apex height", o.Hap, height(s, 0.5), 1e-9, 1e-6, "apex height")
        mon.close("face area", o.A_face(), face(s), 1e-6, 1.0, "area of the side face")


def w_section(r, mon):
    pool = [Prot(r) for _ in range(r.choice([0, 1, 1, 2, 3]))]
    ss = [build(r, pool) for _ in range(r.choice([1, 1, 2, 3]))]
    mon.case([dict(kind=s.kind, mat=s.mat.name, B=s.B, H=s.H, fp={k: v and v.name for k, v in s.fp.items()}) for s, _ in ss])
    last = ""
    for _ in range(r.randint(1, 8)):
        s, o = r.choice(ss)
        c = change(r, s, o, pool)
        if c:
            last = c
            mon.note(c)
            if c in ("H0", "Hap", "Xap", "Alpha", "Beta", "R_in"):
                n = o.num_elements
                for i, e in enumerate(o.small_elements):
                    b, h = section(s, (i + 0.5) / n)
                    if min(b, h) > 1e-3:
                        mon.close("elements", [e.A, e.I[0], e.I[1]], [b * h, b * h ** 3 / 12, h * b ** 3 / 12], 1e-8, 1e-2, "section of element %d of %d after setting %s" % (i, n, c))
        if r.random() < 0.5:
            query(r, s, o, mon, r.random() < 0.3)
    for s, o in ss:
        query(r, s, o, mon, True)
        mon.ok("independence", o.material.timber_type is s.mat, "material of the section changed")
        mon.nontrivial((s.kind, s.mat.name[0], len({id(p) for p in s.fp.values() if p}), s.onfire, s.R > 0, last))


WORKLOADS = {"charring": (w_charring, 6000, 80000), "section": (w_section, 8000, 100000)}
ASSUMPTIONS = ["Charring data of boards (start and failure times) are those of RIL 205-2 as given in the code; end of the double charring rate by RIL 205-2 (3.8) for every protection.", "LVL charring rates by density as in the code."]

if __name__ == "__main__":
    vm.main(globals())
