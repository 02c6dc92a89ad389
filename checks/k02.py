"""K02: stressed skin diaphragms (ECCS 88) and sandwich panels."""
import os, sys, math, io, contextlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vm
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "ref"))
from eccs import K1
import numpy as np
import metku.eurocodes.en1993
from metku.eurocodes.en1993.en1993_1_3.trapezoidal import TrapezoidalSheet
from metku.structures.steel.stressed_skin import StressedSkinRafters, StressedSkin
from metku.sandwich.sandwich import SandwichPanel, SandwichScrew, Face, Core, ruukki_panel
from metku.sections.steel.RHS import RHS, SHS
from metku.sections.steel.ISection import IPE, HEA
from metku.materials.steel_data import Steel

PROPERTY = "K02"
RULE = ("one case is a program with one to three diaphragms (sheeting, rafters and edge members of rolled and hollow sections, fasteners in troughs or crests, EN 1993 or ECCS fastener strengths) or sandwich panels (faces, core, fasteners, supports), with random changes of dimensions and parts between the queries; "
        "resistances and flexibilities are compared with the ECCS 88 expressions evaluated independently, panel stiffness with a section of two faces and a shear core, and the fastener with the flexibility equations of an elastically clamped screw. Non-trivial: distinct (kind, fastener position, number of fasteners, branch, change).")
MONITORS = ["fasteners", "beta factors", "resistances", "K factor", "flexibility", "panel geometry", "panel stiffness", "screw stiffness", "screw resistance", "independence", "relations"]

# ECCS 88 Table 5.? beta_1, case 1 (crests) and case 2 (troughs), as printed
B1 = {2: (0.13, 1.0), 3: (0.30, 1.0), 4: (0.44, 1.04), 5: (0.58, 1.13), 6: (0.71, 1.22), 7: (0.84, 1.33), 8: (0.97, 1.45), 9: (1.10, 1.56), 10: (1.23, 1.68)}


def bearing(fu, d, t, t1):
    al = min(3.2 * math.sqrt(t / d), 2.1)
    hi = al if t < 1 else 2.1
    a = hi if t1 >= 2.5 * t else al + (hi - al) * (t1 - t) / (1.5 * t)
    return a * fu * d * t / 1.25


def beta1(n, loc):
    m = n if loc != "trough" else n - 1
    if n % 2:
        xs = range(2, n, 2)
    else:
        xs = range(1, n, 2)
    return sum((x / m) ** 3 for x in xs)


def member(r):
    k = r.choice(["SHS", "RHS", "IPE", "HEA"])
    if k == "SHS":
        s = SHS(*r.choice([(100, 5), (120, 6), (160, 8), (200, 10), (60, 3)])); return s, s.T
    if k == "RHS":
        s = RHS(*r.choice([(160, 80, 6), (200, 100, 8), (100, 50, 4)])); return s, s.T
    s = IPE(r.choice([160, 200, 300])) if k == "IPE" else HEA(r.choice([140, 200, 300]))
    return s, s.tf


class Skin:
    def __init__(self, r):
        while True:
            self.sh = dict(t=r.uniform(0.5, 1.5), h=r.uniform(25, 160), bt=r.uniform(30, 140), bb=r.uniform(30, 100), an=r.uniform(46, 90))
            self.nt = r.choice([2, 3, 4, 5, 6, 7, 8, 9, 10])
            if self.fits():
                break
        self.a, self.b, self.n = r.uniform(5e3, 4e4), r.uniform(2e3, 9e3), r.randrange(1, 16)
        self.seam = {"d": r.choice([4.8, 5.5, 6.3]), "spacing": r.choice([200, 333, 500, r.uniform(150, 700)]), "loc": r.choice(["trough", "crest"])}
        self.edge = {"d": r.choice([5.5, 6.3]), "spacing": r.choice([150, 250, 300, r.uniform(100, 600)])}
        self.rafter, self.rt = member(r)
        self.em, self.et = member(r)
        self.calc = "en1993"
        s = self.sh
        self.sheet = TrapezoidalSheet(s["t"], s["h"], s["bt"], s["bb"], s["an"], material=Steel("S350GD"), ntroughs=self.nt)
        self.o = StressedSkinRafters(self.sheet, self.a, self.b, self.n, dict(self.seam), dict(self.edge), self.rafter, self.em)

    def fits(self):
        s = self.sh
        q = math.radians(s["an"])
        self.pitch = s["bt"] + s["bb"] + 2 * (s["h"] - s["t"]) / math.tan(q)
        l, h = s["bt"] / self.pitch, s["h"] / self.pitch
        if not (0.1 < l < 1 and 0.1 < h < 0.9):
            return False
        self.ki = (int(math.floor((90 - s["an"]) / 5)) * 5, int(math.floor(h * 10 + 1e-9)) - 1, int(math.floor(l * 10 + 1e-9)) - 1)
        tab = K1.get(self.ki[0])
        return tab is not None and self.ki[1] < len(tab) and self.ki[2] < len(tab[self.ki[1]]) and abs(h * 10 - round(h * 10)) > 1e-6 and abs(l * 10 - round(l * 10)) > 1e-6

    def change(self, r):
        k = r.choice(["ab", "seam", "edge", "rafter", "em", "calc", "n"])
        o = self.o
        if k == "ab":
            self.a, self.b = o.a, o.b = r.uniform(5e3, 4e4), r.uniform(2e3, 9e3)
        elif k == "seam":
            self.seam = {"d": r.choice([4.8, 5.5, 6.3]), "spacing": r.uniform(150, 700), "loc": r.choice(["trough", "crest"])}
            o.seam_fastener = dict(self.seam)
        elif k == "edge":
            self.edge = {"d": r.choice([5.5, 6.3]), "spacing": r.uniform(100, 600)}
            o.edge_fastener = dict(self.edge)
        elif k == "rafter":
            self.rafter, self.rt = member(r)
            o.rafter = self.rafter
        elif k == "em":
            self.em, self.et = member(r)
            o.edge_member = self.em
        elif k == "calc":
            self.calc = r.choice(["en1993", "eccs"])
            o.fastener_calc = self.calc
        else:
            self.n = o.n = r.randrange(1, 16)
        return k

    def check(self, mon, r, tag):
        o, s = self.o, self.sh
        fu, fy, t = 420.0, 350.0, s["t"] - 0.04
        mon.close("fasteners", [self.sheet.fu, self.sheet.fy, self.sheet.t], [fu, fy, t], 1e-12, 0, "sheet")
        d = self.seam["d"]
        quiet = contextlib.redirect_stdout(io.StringIO())
        Fs = bearing(fu, d, t, t) if self.calc == "en1993" else min(2.9 * math.sqrt(t / d) * fu * d * t, 3800)
        with quiet:
            mon.close("fasteners", o.Fs(), Fs, 1e-9, 0, tag + ": seam fastener")
        mx = {5.5: 6500, 6.3: 8000}
        Fp = None
        if self.calc == "en1993":
            Fp = bearing(fu, d, t, self.rt)
        elif d in mx:
            Fp = min(1.9 * fu * d * t, mx[d])
        e = self.edge["d"]
        Fsc = bearing(fu, e, t, self.et) if self.calc == "en1993" else min(1.9 * fu * e * t, mx[e])
        with quiet:
            if Fp is not None:
                mon.close("fasteners", o.Fp(), Fp, 1e-9, 0, tag + ": rafter fastener")
            mon.close("fasteners", o.Fsc(), Fsc, 1e-9, 0, tag + ": edge member fastener")
        n = self.nt
        b1 = beta1(n, self.seam["loc"])
        b3 = 1.0 if self.seam["loc"] == "trough" else (n - 1) / n
        mon.close("beta factors", [o.beta1(), o.beta3(), o.nf()], [b1, b3, n], 1e-9, 0, "%s: beta, %d fasteners in %s" % (tag, n, self.seam["loc"]))
        mon.close("beta factors", o.beta1(), B1[n][self.seam["loc"] == "trough"], 0, 0.011, "%s: beta_1 of the table, %d fasteners in %s" % (tag, n, self.seam["loc"]))
        ns, nsc = int(self.b / self.seam["spacing"]) - 1, int(self.b / self.edge["spacing"])
        mon.close("resistances", [o.ns, o.nsc], [ns, nsc], 0, 0, tag + ": numbers of fasteners")
        nsh = round(self.a / (n * self.pitch))
        mon.close("resistances", [o.nsh, o.p], [nsh, self.pitch], 1e-9, 0, tag + ": number of sheets")
        verb = r.random() < 0.2
        with quiet:
            if Fp is not None:
                mon.close("resistances", o.seam_strength(verb), self.a / self.b * (ns * Fs + b1 / b3 * Fp), 1e-9, 0, tag + ": seam")
                mon.close("resistances", o.sheet_rafter_fastener_strength(verb), 0.6 * self.a * Fp / self.pitch, 1e-9, 0, tag + ": sheet to rafter")
            mon.close("resistances", o.edge_member_fastener_strength(verb), self.a / self.b * Fsc * nsc, 1e-9, 0, tag + ": edge member")
            mon.close("resistances", o.end_collapse(verb), 0.9 * t ** 1.5 * self.a * fy / math.sqrt(self.pitch), 1e-9, 0, tag + ": end collapse")
            K = K1[self.ki[0]][self.ki[1]][self.ki[2]]
            mon.close("K factor", o.K(verb=verb), K, 0, 0, tag + ": K")
            a, b, E, p = self.a, self.b, 210.0, self.pitch
            c11 = a * p ** 2.5 * K / (E * t ** 2.5 * b * b)
            c12 = 2 * a * 1.3 * (1 + 2 * s["h"] / p) / (E * t * b)
            sp, ss, ssc = 0.35, 0.25, 0.35
            c2 = [2 * a * sp * p / b ** 2, ss * sp * (nsh - 1) / (ns * sp + b1 * ss), 2 * ssc / nsc]
            c3 = self.n ** 2 * b ** 3 / (E * self.em.A * a * a)
            mon.close("flexibility", [o.profile_distortion(verb), o.shear_strain(verb), o.edge_member_strain(verb)], [c11, c12, c3], 1e-9, 0, tag + ": profile distortion, shear strain, edge member")
            mon.close("flexibility", o.fastener_deformation(verb), c2, 1e-9, 1e-15, tag + ": fasteners")
            mon.close("flexibility", o.shear_flexibility(verb), b * b / a / a * (c11 + c12 + sum(c2)) + c3, 1e-9, 0, tag + ": total flexibility")


def w_skin(r, mon):
    S = [Skin(r) for _ in range(r.choice([1, 1, 2, 3]))]
    mon.case([dict(sheet=x.sh, troughs=x.nt, a=x.a, b=x.b, n=x.n, seam=x.seam, edge=x.edge) for x in S])
    tags = []
    for i, s in enumerate(S):
        s.check(mon, r, "skin %d" % i)
    for _ in range(r.choice([0, 1, 2, 4])):
        s = r.choice(S)
        tags.append(s.change(r))
        x = r.choice(S)
        x.check(mon, r, "after %s" % tags[-1])
    for i, s in enumerate(S):
        s.check(mon, r, "skin %d at the end" % i)
        mon.ok("independence", s.o.seam_fastener["loc"] == s.seam["loc"] and s.o.a == s.a, "diaphragms affect each other")
    # default fastener of the base class
    b = StressedSkin(S[0].sheet, 1e4, 5e3, 3)
    mon.ok("independence", b.seam_fastener == {'d': 4.8, 'spacing': 500, 'loc': 'trough'}, "default fastener %r" % b.seam_fastener)
    # grid of the table: the ratio is exactly on it
    sh = TrapezoidalSheet(1.0, 100, 60, 40, 60, ntroughs=3)
    k, j = r.randrange(1, 9), r.randrange(1, 10)
    an = 90 - 5 * r.randrange(0, 3)
    sh.angle, sh.angle_rad = an, math.radians(an)
    # pitch follows from bb; choose h and bt as fractions of the pitch
    for P in (r.choice([100.0, 200.0, 300.0, 250.0]),):
        h, bt = k * P / 10, j * P / 10
        bb = P - bt - 2 * (h - 1.0) / math.tan(math.radians(an))
        sh.h, sh.bt, sh.bb = h, bt, bb
        o = StressedSkin(sh, 1e4, 5e3, 3)
        T = K1[90 - an]
        if k - 1 < len(T) and j - 1 < len(T[k - 1]):
            mon.close("K factor", o.K(), T[k - 1][j - 1], 0, 0, "K on the grid h/d=%.1f l/d=%.1f angle %d" % (k / 10, j / 10, an))
            mon.nontrivial(("grid", k, j, an))
    mon.nontrivial(("skin", len(S), S[0].nt, S[0].seam["loc"], S[0].calc, tuple(sorted(set(tags)))))


# ------------------------------------------------------------------ sandwich panels
class Panel:
    def __init__(self, r):
        self.t = [r.uniform(0.4, 1.0), r.choice([r.uniform(0.4, 1.0), 0.74, 0.5, 0.6])]
        self.mat = [r.choice(["S280GD", "S350GD"]), r.choice(["S280GD", "S350GD"])]
        self.tc, self.G = r.uniform(40, 240), r.uniform(2, 8)
        self.w, self.L = r.choice([1000, 1200, r.uniform(600, 1300)]), r.uniform(2000, 12000)
        self.c = [r.uniform(100, 1200) for _ in range(r.choice([1, 2, 3]))]
        self.scr = r.choice([(5.5, 5.1, 4.59), (6.3, 5.5, 5.0), (r.uniform(5, 7), r.uniform(4.5, 6), r.uniform(4, 5.5))])
        f = [Face(t, m) for t, m in zip(self.t, self.mat)]
        self.dflt = r.random() < 0.3
        if self.dflt:
            self.c, self.scr = [1000], (5.5, 5.1, 4.59)
            self.o = SandwichPanel(f, Core(self.tc, self.G, 1e-7), self.w, self.L)
        else:
            self.o = SandwichPanel(f, Core(self.tc, self.G, 1e-7), self.w, self.L, list(self.c), SandwichScrew(*self.scr))

    def change(self, r):
        o = self.o
        k = r.choice(["faces", "core", "size", "screws", "pairs"])
        if k == "faces":
            i = r.randrange(2)
            self.t[i] = o.faces[i].t = r.uniform(0.4, 1.0)
        elif k == "core":
            self.tc = o.core.t = r.uniform(40, 240)
            self.G = o.core.G = r.uniform(2, 8)
        elif k == "size":
            self.w = o.width = r.uniform(600, 1300)
            self.L = o.length = r.uniform(2000, 12000)
        elif k == "screws":
            self.scr = (r.uniform(5, 7), r.uniform(4.5, 6), r.uniform(4, 5.5))
            o.fastener = SandwichScrew(*self.scr)
        else:
            self.c = [r.uniform(100, 1200) for _ in range(r.choice([1, 2, 3]))]
            o.c = list(self.c)
        return k

    def check(self, mon, r, tag):
        o, t, E, b = self.o, self.t, 210e3, self.w
        d = self.tc + (t[0] + t[1]) / 2
        D = self.tc + sum(t)
        fu = [dict(S280GD=360, S350GD=420)[m] for m in self.mat]
        mon.close("panel geometry", [o.thickness, o.d, o.Atop, o.Abottom], [D, d, b * t[0], b * t[1]], 1e-9, 0, tag + ": geometry")
        # bending of the section without shear: faces about the common centroid
        A = [b * x for x in t]
        z = [0.0, d]
        zc = sum(a * y for a, y in zip(A, z)) / sum(A)
        own = sum(E * b * x ** 3 / 12 for x in t)
        tot = own + sum(E * a * (y - zc) ** 2 for a, y in zip(A, z))
        mon.close("panel stiffness", [o.EIo, o.EIs, o.EIo + o.EIs], [own, tot - own, tot], 1e-8, 0, tag + ": bending stiffness")
        mon.close("panel stiffness", o.S, self.G * b * d * d / self.tc, 1e-9, 0, tag + ": shear stiffness")
        mon.close("panel stiffness", [f.EA(b) for f in o.faces] + [f.EI(b) for f in o.faces], [E * a for a in A] + [E * b * x ** 3 / 12 for x in t], 1e-9, 0, tag + ": faces")
        tc2 = t[1] - 0.04
        mon.close("panel geometry", [o.tF2_cor, o.fu_F2], [tc2, fu[1]], 1e-9, 0, tag + ": inner face")
        d0, dS, d1 = self.scr
        base = math.sqrt(tc2 ** 3 * d1) * fu[1]
        mon.close("screw resistance", o.fastener_shear_resistance(), 4.2 * base / 1.25, 1e-9, 0, tag + ": fastener resistance")
        # screw: cantilever with an elastic clamp in the middle of the support
        ts = r.uniform(1.5, 12)
        EI, C = 200e3 * math.pi * dS ** 4 / 64, 2400 * math.sqrt(ts * d1 ** 5)
        k = 6.93 * base / (0.26 + 0.8 * t[1]) if tc2 < 0.7 else 4.2 * base / 0.373
        x1, x2 = ts / 2, ts / 2 + D
        fl = lambda x, a: x * a / C + (min(x, a) ** 2) * (3 * max(x, a) - min(x, a)) / (6 * EI)
        # unit load shared between the faces that have the same displacement; only the hole of the inner face yields
        M = np.array([[fl(x1, x1) + 1 / k - fl(x2, x1), fl(x1, x2) - fl(x2, x2)], [1.0, 1.0]])
        F1, F2 = np.linalg.solve(M, [0.0, 1.0])
        v = fl(x1, x1) * F1 + fl(x1, x2) * F2 + F1 / k
        with contextlib.redirect_stdout(io.StringIO()):
            kv = o.fastener_transverse_stiffness(ts, verb=r.random() < 0.2)
        mon.close("screw stiffness", kv, 1 / v, 1e-6, 0, "%s: fastener stiffness, support %.2f mm" % (tag, ts))
        L, n = r.uniform(2000, 12000), r.randrange(1, 12)
        mon.close("screw stiffness", o.shear_stiffness_for_support(ts, L, n), sum(2 * (c / 2) ** 2 for c in self.c) * n / v / L, 1e-6, 0, tag + ": shear stiffness for support")
        mon.ok("relations", o.fastener_transverse_stiffness(ts) < k * (1 + 1e-9) or D < 3 * ts, tag + ": stiffer than the hole")


def w_panel(r, mon):
    S = [Panel(r) for _ in range(r.choice([1, 2, 3]))]
    mon.case([dict(t=x.t, mat=x.mat, core=x.tc, G=x.G, w=x.w, c=x.c, screw=x.scr) for x in S])
    for i, s in enumerate(S):
        s.check(mon, r, "panel %d" % i)
    tags = []
    for _ in range(r.choice([0, 1, 2, 3])):
        s = r.choice(S)
        tags.append(s.change(r))
        r.choice(S).check(mon, r, "after " + tags[-1])
    for i, s in enumerate(S):
        s.check(mon, r, "panel %d at the end" % i)
        mon.ok("independence", list(s.o.c) == list(s.c), "screw pairs of panels affect each other")
    T = r.choice([60, 100, 150, 200])
    p = ruukki_panel(thickness=T, length=r.uniform(3e3, 9e3))
    mon.close("panel geometry", [p.thickness, p.d, p.width, p.faces[0].t, p.faces[1].t], [T, T - 0.55, 1200, 0.6, 0.5], 1e-9, 0, "Ruukki panel")
    mon.nontrivial(("panel", len(S), S[0].t[1] - 0.04 < 0.7, len(S[0].c), tuple(sorted(set(tags)))))


WORKLOADS = {
    "skin": (w_skin, 250, 10000),
    "panel": (w_panel, 250, 10000),
}

if __name__ == "__main__":
    vm.main(globals())
