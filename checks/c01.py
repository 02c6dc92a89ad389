"""C01: composite beams and columns (EN 1994-1-1) and their materials."""
import os, sys, math, io, re, contextlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vm
import numpy as np
from metku.sections.steel.ISection import IPE, HEA, HEB, HEM
from metku.sections.steel.RHS import RHS, SHS
from metku.sections.composite.composite_beam import CompositeIBeam, ConcreteSlab, CompositeSlab
from metku.sections.composite.composite_column import ConcreteFilledTube
from metku.eurocodes.en1992 import en1992_1_1
from metku.eurocodes.en1992 import constants as con92
from metku.eurocodes.en1994 import en1994_1_1

PROPERTY = "C01"
RULE = ("one case is a random concrete, rebar or stud, a program with several composite beams (rolled sections, concrete and composite slabs, several beams on the same slab or concrete) or several concrete filled tubes with random histories of changes (span, section, slab, concrete, humidity, rebars and their position, forces, end moments, buckling lengths); "
        "stiffnesses and resistances are compared with EN 1992-1-1 3.1/Annex B and EN 1994-1-1 evaluated from dimensions, plastic resistances also with an integration of stress blocks over the cross-section, and equilibrium, sign and ordering relations are monitored. Non-trivial: distinct (section, position of the neutral axis, change, curve, concrete).")
MONITORS = ["concrete", "creep", "rebar", "studs", "beam stiffness", "creep stiffness", "beam plastic", "stress blocks", "force balance", "independence", "tube geometry", "tube resistance", "tube stiffness", "buckling", "tube bending", "tube weight", "end moments", "design", "relations"]

FCK = {"C12/15": 12, "C16/20": 16, "C20/25": 20, "C25/30": 25, "C30/37": 30, "C35/45": 35, "C40/50": 40, "C45/55": 45, "C50/60": 50}
IH = [120, 160, 200, 240, 300, 360, 400, 450, 500, 600]


def ecm(g):
    return 22000 * ((FCK[g] + 8) / 10) ** 0.3


def creep(g, h0, t, t0, RH):
    fcm = FCK[g] + 8.0
    a1, a2, a3 = (35 / fcm) ** 0.7, (35 / fcm) ** 0.2, (35 / fcm) ** 0.5
    x = (1 - RH / 100) / (0.1 * h0 ** (1 / 3))
    if fcm <= 35:
        prh, bh = 1 + x, min(1.5 * (1 + (0.012 * RH) ** 18) * h0 + 250, 1500)
    else:
        prh, bh = (1 + x * a1) * a2, min(1.5 * (1 + (0.012 * RH) ** 18) * h0 + 250 * a3, 1500 * a3)
    return prh * 16.8 / math.sqrt(fcm) / (0.1 + t0 ** 0.2) * ((t - t0) / (bh + t - t0)) ** 0.3


def w_materials(r, mon):
    g = r.choice(sorted(FCK))
    c = con92.Concrete(g)
    RH, h0, t0 = r.uniform(30, 90), r.choice([r.uniform(50, 600), 1e11]), r.choice([1, 7, 28, r.uniform(1, 90)])
    t = t0 + r.choice([1e8, r.uniform(1, 1e5)])
    mon.case(dict(concrete=g, RH=RH, h0=h0, t0=t0, t=t))
    mon.close("concrete", [c.fck, c.fcm, c.Ecm], [FCK[g], FCK[g] + 8, ecm(g)], 1e-9, 0, g)
    acc, gc = r.choice([0.85, 1.0, r.uniform(0.8, 1)]), r.choice([1.5, 1.35, 1.2])
    mon.close("concrete", [c.fcd(), c.fcd(acc), c.fcd(acc, gc)], [0.85 * FCK[g] / 1.5, acc * FCK[g] / 1.5, acc * FCK[g] / gc], 1e-9, 0, "fcd")
    mon.close("concrete", [en1992_1_1.fcd(FCK[g]), en1992_1_1.fcd(FCK[g], acc, gc)], [0.85 * FCK[g] / 1.5, acc * FCK[g] / gc], 1e-9, 0, "fcd()")
    mon.close("concrete", c.nu_cracked(), 0.6 * (1 - FCK[g] / 250), 1e-9, 0, "nu")
    mon.close("creep", c.creep_coefficient(h0, t, t0, RH), creep(g, h0, t, t0, RH), 1e-9, 0, "creep coefficient")
    mon.close("creep", c.creep_coefficient(h0, t, t0), creep(g, h0, t, t0, 50), 1e-9, 0, "creep coefficient with the humidity of the concrete")
    c.RH = RH
    mon.close("creep", c.creep_coefficient(h0, t, t0), creep(g, h0, t, t0, RH), 1e-9, 0, "creep coefficient with a new humidity")
    mon.ok("relations", c.creep_coefficient(h0, t * 2, t0, RH) >= c.creep_coefficient(h0, t, t0, RH), "creep decreases in time")
    mon.ok("relations", c.creep_coefficient(h0, t + 50, t0 + 50, RH) <= c.creep_coefficient(h0, t, t0, RH) + 1e-12, "later loading creeps more")
    mon.ok("relations", c.creep_coefficient(h0, t, t0, min(RH + 10, 95)) <= c.creep_coefficient(h0, t, t0, RH) * (1 + 1e-12), "humid concrete creeps more")
    d = r.choice([8, 10, 12, 16, 20, 25, 32, r.uniform(6, 40)])
    b = en1992_1_1.Rebar(d, "B500B")
    for k in range(2):
        A = math.pi * d * d / 4
        mon.close("rebar", [b.r, b.A, b.I, b.weight, b.fy, b.fyd, b.fu, b.E], [d / 2, A, math.pi * d ** 4 / 64, 7850e-6 * A, 500, 500 / 1.15, 550, 210e3], 1e-9, 0, "rebar d=%g" % d)
        d = d * r.uniform(0.5, 2)
        b.d = d
    k = r.choice([19, 22, 25])
    L = r.choice([r.uniform(3, 6) * k, 4 * k + 1e-9, 4 * k - 1e-9, 105.0, 125.0])
    if L / k < 3:
        L = 3 * k
    fu = r.choice([450, 500, r.uniform(400, 500)])
    s = en1994_1_1.ShearStud(en1994_1_1.S3L_Studs[k], L, fu=fu)
    a = 1.0 if L / k > 4 else 0.2 * (L / k + 1)
    fck, E = FCK[g], r.choice([ecm(g), r.uniform(25e3, 40e3)])
    want = min(0.8 * fu * math.pi * k * k / 4 / 1.25, 0.29 * a * k * k * math.sqrt(fck * E) / 1.25)
    mon.close("studs", s.PRd(fck, E), want, 1e-9, 0, "stud %d length %g %s" % (k, L, g))
    if r.random() < 0.2:
        s = en1994_1_1.ShearStud()
        mon.close("studs", s.PRd(fck, E), min(0.8 * 450 * math.pi * 19 ** 2 / 4 / 1.25, 0.29 * 19 ** 2 * math.sqrt(fck * E) / 1.25), 1e-9, 0, "default stud")
    mon.close("studs", s.PRd(fck, E, verb=True), s.PRd(fck, E), 0, 0, "verbose")
    mon.nontrivial(("materials", g, k, L / k > 4, h0 > 1e9, round(RH / 10)))


# ---------------------------------------------------------------- beams
def pick_I(r):
    C = r.choice([IPE, HEA, HEB, HEM])
    return C(r.choice(IH), r.choice(["S235", "S355", "S355", "S420"]))


class BeamRef:
    """everything evaluated from dimensions"""

    def __init__(self, m):
        s = m["steel"]
        self.m, self.s = m, s
        self.g = m["con"]
        self.hc, self.ha = m["hc"], m["ha"]
        self.h = self.hc + self.ha
        self.beff = m["b0"] + 2 * m["L"] / 8
        self.Ec = ecm(self.g)
        self.phi = creep(self.g, 2 * self.hc, 1e8, m["t0"], m["RH"])
        self.Ecc = self.Ec / (1 + 1.1 * self.phi)
        self.Ecs = self.Ec / (1 + 0.55 * creep(self.g, 2 * self.hc, 1e8, 1, m["RH"]))
        self.A, self.I, self.fy = s.A, s.I[0], s.fy
        self.Ac, self.Ic = self.hc * self.beff, self.beff * self.hc ** 3 / 12
        self.yc, self.ya = self.hc / 2, self.h + s.h / 2
        self.Rc = 0.85 * FCK[self.g] / 1.5 * self.Ac
        self.Ra = self.fy * self.A

    def elastic(self, Ec):
        EA = 210e3 * self.A + Ec * self.Ac
        y = (210e3 * self.A * self.ya + Ec * self.Ac * self.yc) / EA
        EI = 210e3 * (self.I + self.A * (self.ya - y) ** 2) + Ec * (self.Ic + self.Ac * (self.yc - y) ** 2)
        return EA, y, EI

    def plastic(self):
        """neutral axis and moment; forces about the bottom of the section.
        the fillets stay at the centroid of the beam, as in the simple rule"""
        s, fy = self.s, self.fy
        H = self.h + s.h
        if self.Ra <= self.Rc:
            x = self.Ra / self.Rc * self.hc
            return "concrete", x, self.Ra * (H - x / 2) - self.Ra * (H - self.ya)
        # compressed steel force
        Ca = (self.Ra - self.Rc) / 2
        Rf = fy * s.b * s.tf
        if Ca <= Rf:
            d = Ca / (fy * s.b)
            zone = "flange"
            arm = 2 * Ca * (H - self.h - d / 2)
        else:
            d = s.tf + (Ca - Rf) / (fy * s.tw)
            zone = "web"
            arm = 2 * Rf * (H - self.h - s.tf / 2) + 2 * (Ca - Rf) * (H - self.h - s.tf - (d - s.tf) / 2)
        return zone, self.h + d, self.Rc * (H - self.yc) + arm - self.Ra * (H - self.ya)

    def blocks(self, n=4000):
        """fibre integration with the real section (fillets)"""
        s, fy = self.s, self.fy
        z = (np.arange(n) + 0.5) * s.h / n
        zz = np.minimum(z, s.h - z)
        w = np.where(zz < s.tf, s.b, s.tw)
        q = zz - s.tf
        fil = (q >= 0) & (q < s.r)
        w = w + np.where(fil, 2 * (s.r - np.sqrt(np.maximum(s.r ** 2 - (s.r - q) ** 2, 0))), 0)
        dA = w * s.h / n * fy
        tot = dA.sum()
        if tot <= self.Rc:
            x = tot / self.Rc * self.hc
            return float((dA * (self.h + z)).sum() - tot * x / 2)
        target = (tot - self.Rc) / 2
        cum = np.cumsum(dA)
        sgn = np.where(cum <= target, -1.0, 1.0)
        i = int(np.searchsorted(cum, target))
        if i < n:
            prev = cum[i - 1] if i else 0.0
            sgn[i] = 1 - 2 * (target - prev) / dA[i]
        return float((sgn * dA * (self.h + z)).sum() - self.Rc * self.yc)


def check_beam(mon, p, m, tag):
    R = BeamRef(m)
    mon.close("beam stiffness", [p.beff, p.slab.h, p.slab.hc, p.slab.h0, p.yc, p.ya, p.Ac, p.Ic, p.Aa, p.Ia], [R.beff, R.h, R.hc, 2 * R.hc, R.yc, R.ya, R.Ac, R.Ic, R.A, R.I], 1e-9, 0, tag + "geometry")
    if m["ha"]:
        mon.close("beam stiffness", p.slab.concrete_weight(), 25 * R.h * 1e-3, 1e-9, 0, tag + "weight of the slab")
    else:
        mon.close("beam stiffness", p.slab.weight(), 25 * R.h * 1e-3, 1e-9, 0, tag + "weight of the slab")
    EA, y, EI = R.elastic(R.Ec)
    mon.close("beam stiffness", [p.Ea, p.Ecm, p.n0, p.EAa, p.EAc, p.EIa, p.EIc], [210e3, R.Ec, 210e3 / R.Ec, 210e3 * R.A, R.Ec * R.Ac, 210e3 * R.I, R.Ec * R.Ic], 1e-9, 0, tag + "stiffness of the parts")
    mon.close("beam stiffness", [p.EAcom(), p.centroid(), p.EIcom()], [EA, y, EI], 1e-9, 0, tag + "composite stiffness")
    mon.close("beam stiffness", [p.ya_com(), p.yc_com(), p.distance_centroids()], [R.ya - y, abs(y - R.yc), R.ya - R.yc], 1e-9, 1e-9, tag + "distances")
    a = (R.ya - R.yc) ** 2 * 210e3 * R.A * R.Ec * R.Ac / (210e3 * R.A + R.Ec * R.Ac) / (210e3 * R.I + R.Ec * R.Ic)
    mon.close("beam stiffness", p.composite_coefficient(), a, 1e-9, 0, tag + "composite coefficient")
    mon.close("relations", p.EIcom(), (p.EIa + p.EIc) * (1 + p.composite_coefficient()), 1e-9, 0, tag + "full interaction stiffness from the coefficient")
    EA, y, EI = R.elastic(R.Ecc)
    mon.close("creep stiffness", p.creep_coefficient(), R.phi, 1e-9, 0, tag + "creep coefficient")
    mon.close("creep stiffness", [p.Ecc, p.Ecs, p.nC, p.nS, p.EAcc, p.EIcc], [R.Ecc, R.Ecs, 210e3 / R.Ecc, 210e3 / R.Ecs, R.Ecc * R.Ac, R.Ecc * R.Ic], 1e-9, 0, tag + "long-term moduli")
    mon.close("creep stiffness", [p.EAcom("creep"), p.centroid("creep"), p.EIcom("creep")], [EA, y, EI], 1e-9, 0, tag + "long-term stiffness")
    mon.close("creep stiffness", [p.ya_com("creep"), p.yc_com("creep")], [R.ya - y, abs(y - R.yc)], 1e-9, 1e-9, tag + "long-term distances")
    mon.ok("relations", p.EIcom("creep") < p.EIcom() and p.EIcom("creep") > p.EIa, tag + "creep does not soften")
    zone, x, M = R.plastic()
    mon.close("beam plastic", [p.Ra(), p.Rc(), p.Rf(), p.Rw()], [R.Ra, R.Rc, R.fy * R.s.b * R.s.tf, R.fy * (R.s.h - 2 * R.s.tf - 2 * R.s.r) * R.s.tw], 1e-9, 0, tag + "resultants")
    mon.close("beam plastic", p.plastic_neutral_axis(), x, 1e-9, 1e-6, tag + "plastic neutral axis in the " + zone)
    mon.close("beam plastic", p.MplRd(), M, 1e-9, 1, tag + "plastic moment, neutral axis in the " + zone)
    mon.close("beam plastic", p.MplRd(verb=True), M, 1e-9, 1, tag + "verbose")
    mon.close("stress blocks", p.MplRd(), R.blocks(), 0.09 if zone == "web" else 0.012, 0, tag + "stress block integration, axis in the " + zone)
    got = p.plastic_neutral_axis()
    if zone == "concrete":
        N = R.Rc * got / R.hc - R.Ra
    else:
        d = got - R.h
        C = R.fy * (R.s.b * min(d, R.s.tf) + R.s.tw * max(d - R.s.tf, 0))
        N = R.Rc + 2 * C - R.Ra
    mon.close("force balance", N / R.Ra, 0, 0, 1e-9, tag + "axial force at the plastic neutral axis in the " + zone)
    mon.close("beam plastic", p.VRd(), R.s.shear_force_resistance(), 1e-9, 0, tag + "shear resistance")
    Mpa = R.fy * R.s.Wpl[0]
    mon.ok("relations", p.MplRd() > Mpa * 0.93, tag + "composite beam weaker than steel beam %g %g" % (p.MplRd(), Mpa))
    mon.nontrivial(("beam", type(R.s).__name__, zone, m["ha"] > 0, m["con"], m["last"]))


def w_beam(r, mon):
    cons = {g: con92.Concrete(g) for g in FCK}
    beams = []
    n = r.choice([1, 2, 3])
    slab = None
    for i in range(n):
        g = r.choice(sorted(FCK))
        hc, ha = r.uniform(60, 200), r.choice([0, 0, r.uniform(40, 120)])
        own = r.random() < 0.3
        con = con92.Concrete(g) if own else cons[g]
        if slab is None or r.random() < 0.7:
            slab = CompositeSlab(hc + ha, con, ha) if ha else ConcreteSlab(hc, con)
            sd = dict(con=g, hc=hc, ha=ha)
        m = dict(L=r.choice([r.uniform(4e3, 20e3), r.uniform(1e3, 4e3)]), steel=pick_I(r), b0=0, t0=28, RH=r.choice([50, 50, 80, r.uniform(40, 90)]), last="new", slab=sd)
        kw = {} if m["RH"] == 50 else dict(RH=m["RH"])
        beams.append((CompositeIBeam(m["L"], m["steel"], slab, **kw), m))

    def full(m):
        return dict(m, **m["slab"])
    mon.case([dict(full(m), steel=repr(m["steel"]), slab=None) for _, m in beams])
    for i, (p, m) in enumerate(beams):
        check_beam(mon, p, full(m), "beam %d: " % i)
    for step in range(r.choice([2, 4])):
        p, m = r.choice(beams)
        what = r.choice(["length", "steel", "b0", "RH", "t0", "hc", "material", "slab", "grade", "concrete RH"])
        m["last"] = what
        if what == "length":
            m["L"] = r.uniform(1e3, 20e3)
            p.length = m["L"]
        elif what == "steel":
            m["steel"] = pick_I(r)
            p.steel = m["steel"]
        elif what == "b0":
            m["b0"] = r.choice([0, r.uniform(50, 200)])
            p.b0 = m["b0"]
        elif what == "RH":
            m["RH"] = r.uniform(40, 90)
            p.RH = m["RH"]
        elif what == "t0":
            m["t0"] = r.choice([7, 28, 56])
            p.t0 = m["t0"]
        elif what == "hc":
            m["slab"]["hc"] = r.uniform(50, 200)
            p.slab.hc = m["slab"]["hc"]
        elif what == "material":
            m["slab"]["con"] = r.choice(sorted(FCK))
            p.slab.material = cons[m["slab"]["con"]]
        elif what == "slab":
            hc, ha, g = r.uniform(60, 200), r.choice([0, r.uniform(40, 120)]), r.choice(sorted(FCK))
            m["slab"] = dict(con=g, hc=hc, ha=ha)
            p.slab = CompositeSlab(hc + ha, cons[g], ha) if ha else ConcreteSlab(hc, cons[g])
        elif what == "grade":
            s = m["steel"]
            g = r.choice(["S235", "S275", "S355", "S460M"])
            s.material = g
            if abs(s.fy - {"S235": 235, "S275": 275, "S355": 355, "S460M": 460}[g]) > 1e-9:
                mon.ok("beam plastic", False, "yield strength after a change of grade")
        else:
            # the humidity of a beam is its own
            p.slab.material.RH = r.uniform(40, 90)
        j = r.randrange(len(beams))
        check_beam(mon, beams[j][0], full(beams[j][1]), "step %d (%s) beam %d: " % (step, what, j))
    for i, (p, m) in enumerate(beams):
        mon.close("independence", [p.EIcom("creep"), p.MplRd(), p.beff], [BeamRef(full(m)).elastic(BeamRef(full(m)).Ecc)[2], BeamRef(full(m)).plastic()[2], BeamRef(full(m)).beff], 1e-9, 0, "beam %d at the end" % i)


# ---------------------------------------------------------------- tubes
def pick_tube(r):
    g = r.choice(["S235", "S355", "S355", "S420", "S460M"])
    if r.random() < 0.5:
        h = r.choice([150, 180, 200, 250, 300, 350])
        return SHS(h, r.choice([5, 6.3, 7.1, 8, 10]), fy={"S235": "S235", "S355": "S355", "S420": "S420", "S460M": "S460M"}[g])
    h, b = r.choice([(200, 150), (250, 150), (300, 200), (400, 200), (200, 250), (350, 250)])
    return RHS(h, b, r.choice([6.3, 8, 10]), fy=g)


def buckling(l, a):
    f = 0.5 * (1 + a * (l - 0.2) + l * l)
    return min(1.0, 1 / (f + math.sqrt(f * f - l * l))) if l > 0.2 else 1.0


class TubeRef:
    def __init__(self, m):
        s = m["steel"]
        self.s, self.m = s, m
        H, B, T, Ro = s.H, s.B, s.T, s.R
        self.hi, self.bi, self.ri = H - 2 * T, B - 2 * T, Ro - T
        self.nb, d = m["nbars"], m["d"]
        self.Ab = math.pi * d * d / 4
        self.As = self.nb * self.Ab
        self.y, self.z = m["pos"]
        self.Is = self.nb * (math.pi * d ** 4 / 64 + self.Ab * self.z ** 2)
        self.Wps = self.nb * self.Ab * self.z
        r = self.ri
        q = r * r * (1 - math.pi / 4)                    # one corner outside the circle
        # centroid distance of the missing corner from the inner edge
        e = (r ** 3 / 2 - math.pi / 4 * r * r * (r - 4 * r / 3 / math.pi)) / q if r else 0
        self.Ac = self.hi * self.bi - 4 * q - self.As
        Iq = (r ** 4 / 3 - (math.pi / 16 * r ** 4 - math.pi / 4 * r * r * (4 * r / 3 / math.pi) ** 2 + math.pi / 4 * r * r * (r - 4 * r / 3 / math.pi) ** 2) - q * e * e) if r else 0
        zc = self.hi / 2 - e
        self.Ic = self.bi * self.hi ** 3 / 12 - 4 * (Iq + q * zc ** 2) - self.Is
        self.Wpc = self.bi * self.hi ** 2 / 4 - 4 * q * zc - self.Wps
        self.fck, self.Ec = FCK[m["con"]], ecm(m["con"])
        self.fcd, self.fsd, self.fy = self.fck / 1.5, 500 / 1.15, s.fy
        self.Npm = self.fcd * self.Ac
        self.NaRd = self.fy * s.A
        self.NplRd = self.NaRd + self.fsd * self.As + self.Npm
        self.NplRk = self.NaRd + 500 * self.As + self.fck * self.Ac
        self.rho = self.As / self.Ac
        if m["ned"]:
            phi = creep(m["con"], 1e11, 1e11, 28, m["RH"])
            self.Eceff = self.Ec / (1 + m["nged"] / m["ned"] * phi)
            self.EIeff = 210e3 * s.I[0] + 210e3 * self.Is + 0.6 * self.Eceff * self.Ic
            self.EIII = 0.9 * (210e3 * s.I[0] + 210e3 * self.Is + 0.5 * self.Eceff * self.Ic)
        self.e0 = m["L"] / (300 if self.rho <= 0.03 else 200)
        self.Mmax = self.fy * s.Wpl[0] + self.fsd * self.Wps + 0.5 * self.fcd * self.Wpc

    def hn(self):
        """half height of the zone between -hn and hn; None when the bars are cut"""
        T = self.s.T
        r = self.m["d"] / 2
        k = 4 * T * self.fy + self.bi * self.fcd
        h = self.Npm / 2 / k
        if h <= self.z - r:
            return h, False
        h2 = (self.Npm / 2 + self.fcd * self.As / 2 - self.fsd * self.As) / k
        if h2 >= self.z + r:
            return h2, True
        return None

    def MplRd(self):
        x = self.hn()
        if x is None:
            return None
        h, bars = x
        T = self.s.T
        Wps = self.Wps if bars else 0
        return self.Mmax - (self.fy * 2 * T * h * h + self.fsd * Wps + 0.5 * self.fcd * (self.bi * h * h - Wps))

    def moment_at(self, z0, n=3000):
        """axial force and moment of stress blocks with the neutral axis at height z0"""
        s = self.s
        z = -s.H / 2 + (np.arange(n) + 0.5) * s.H / n
        dz = s.H / n

        def width(hh, bb, rr):
            q = hh / 2 - np.abs(z)
            w = np.where(q >= 0, bb, 0.0)
            c = (q >= 0) & (q < rr)
            return w - np.where(c, 2 * (rr - np.sqrt(np.maximum(rr ** 2 - (rr - q) ** 2, 0))), 0)
        wi = width(self.hi, self.bi, self.ri)
        wo = width(s.H, s.B, s.R) - wi
        sg = np.clip((z - z0) / dz + 0.5, 0, 1)      # 1 in compression
        dN = (2 * sg - 1) * self.fy * wo * dz + sg * self.fcd * wi * dz
        N, M = dN.sum(), (dN * z).sum()
        for sgn in (1, -1):
            zb, A = sgn * self.z, self.As / 2
            f = self.fsd - self.fcd if zb > z0 else -self.fsd
            N += f * A
            M += f * A * zb
        return N, M


def check_tube(mon, p, m, tag):
    R = TubeRef(m)
    s = m["steel"]
    mon.close("tube geometry", [p.y_rebar, p.z_rebar], [R.y, R.z], 1e-9, 1e-9, tag + "rebar position")
    mon.close("tube geometry", [p.u, p.v], [s.H / 2 - s.T - R.z - m["d"] / 2, s.B / 2 - s.T - R.y - m["d"] / 2], 1e-9, 1e-9, tag + "edge distances of rebars")
    mon.close("tube geometry", [p.As, p.Ac, p.Aa, p.Ia, p.Is, p.Wps], [R.As, R.Ac, s.A, s.I[0], R.Is, R.Wps], 1e-9, 0, tag + "areas and second moments")
    mon.close("tube geometry", [p.Ic, p.Wpc], [R.Ic, R.Wpc], 1e-8, 0, tag + "concrete: second moment, plastic modulus")
    mon.close("tube weight", p.weight_per_length, (7850e-9 * s.A * 1e3 + 7850e-9 * R.As * 1e3) * 9.81e-3 + 24 * R.Ac * 1e-6, 1e-9, 0, tag + "weight")
    mon.close("tube resistance", [p.fyd, p.fcd, p.fsd], [R.fy, R.fcd, R.fsd], 1e-9, 0, tag + "design strengths")
    mon.close("tube resistance", [p.NplRd(), p.NplRk(), p.NaRd(), p.NpmRd()], [R.NplRd, R.NplRk, R.NaRd, R.Npm], 1e-9, 0, tag + "axial resistances")
    mon.close("tube resistance", [p.steel_contribution_ratio(), p.reinforcement_ratio(), p.alpha_m()], [R.NaRd / R.NplRd, R.rho, 0.9 if R.fy <= 355 else 0.8], 1e-9, 0, tag + "ratios")
    mon.close("tube resistance", p.VRd(), s.shear_force_resistance(), 1e-9, 0, tag + "shear")
    mon.close("tube stiffness", p.e0(), R.e0, 1e-9, 0, tag + "imperfection")
    M1, M2 = sorted(m["med"], key=abs)
    mon.close("end moments", [abs(p.M1), abs(p.M2), p.M1 * p.M2], [abs(M1), abs(M2), M1 * M2], 1e-12, 0, tag + "end moments")
    mon.close("end moments", p.NEd, abs(m["ned"]), 1e-12, 0, tag + "axial force")
    curve = 0.21 if R.rho <= 0.03 else 0.34
    if m["ned"]:
        mon.close("tube stiffness", [p.Eceff, p.EIeff(), p.EIeffII()], [R.Eceff, R.EIeff, R.EIII], 1e-8, 0, tag + "effective stiffness")
        L = m["L"] * m["lcr"][0]
        Ncr = math.pi ** 2 * R.EIeff / L ** 2
        mon.close("buckling", [p.Ncr(), p.Ncreff()], [Ncr, math.pi ** 2 * R.EIII / L ** 2], 1e-8, 0, tag + "critical forces")
        l = math.sqrt(R.NplRk / Ncr)
        mon.close("buckling", p.slenderness(), l, 1e-8, 0, tag + "slenderness")
        mon.close("buckling", p.NbRd(), buckling(l, curve) * R.NplRd, 1e-7, 0, tag + "buckling resistance")
        mon.ok("relations", p.NbRd() <= p.NplRd() * (1 + 1e-12), tag + "NbRd > NplRd")
    mon.close("tube bending", p.Mpl_max_Rd(), R.Mmax, 1e-8, 0, tag + "largest moment")
    M = R.MplRd()
    if M is None:
        mon.note("bars cut by the neutral axis")
    else:
        mon.close("tube bending", p.MplRd(), M, 1e-8, 0, tag + "plastic moment")
        h, bars = R.hn()
        if h < R.hi / 2 - R.ri:
            N, Mi = R.moment_at(h)
            mon.close("force balance", N / R.NplRd, 0, 0, 2e-3, tag + "axial force of the stress blocks")
            mon.close("stress blocks", Mi, p.MplRd(), 6e-3, 0, tag + "stress blocks with the neutral axis at hn")
            # the largest moment has the neutral axis at the centroid
            mon.close("stress blocks", R.moment_at(0.0)[1], p.Mpl_max_Rd(), 6e-3, 0, tag + "stress blocks at the centroid")
        mon.ok("relations", p.MplRd() <= p.Mpl_max_Rd() * (1 + 1e-12), tag + "MplRd > Mpl,max,Rd")
    mon.nontrivial(("tube", type(s).__name__, None if R.hn() is None else R.hn()[1], R.rho > 0.03, m["con"], m["last"], bool(m["ned"])))
    return R


def check_design(mon, p, m, R, tag):
    """utilization printed by the design"""
    if not m["ned"]:
        return
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        p.design(verb=True)
    txt = out.getvalue()
    g = re.findall(r"Utilization ratio:\s*(\S+)", txt)
    if not mon.ok("design", len(g) == 1, tag + "no utilization ratio printed"):
        return
    M1, M2 = sorted(m["med"], key=abs)
    rat = M1 / M2 if M2 else 0
    M2a, N = abs(M2), abs(m["ned"])
    L = m["L"] * m["lcr"][0]
    Nc = math.pi ** 2 * R.EIII / L ** 2
    M0 = N * R.e0
    Mpl = R.MplRd()
    if Mpl is None or N > 0.95 * Nc or N > 0.98 * R.NplRd:
        return
    if Nc < 10 * N:
        b = max(0.66 + 0.44 * rat, 0.44) if M2a else 0
        ME = max(max(1 / (1 - N / Nc), 1) * (b * M2a + M0), M2a)
    else:
        ME = M0 + M2a
    mu = min((N / R.NplRd - 1) / (R.Npm / R.NplRd - 1), 1.0)
    U = ME / (mu * Mpl) / (0.9 if R.fy <= 355 else 0.8)
    if abs(Nc - 10 * N) > 1e-6 * Nc:
        mon.close("design", float(g[0]), U, 1e-6, 6e-4, tag + "utilization in combined compression and bending")
    med = list(p.med)
    p.med = [-x for x in med]
    with contextlib.redirect_stdout(io.StringIO()) as o2:
        p.design(verb=True)
    p.med = med
    g2 = re.findall(r"Utilization ratio:\s*(\S+)", o2.getvalue())
    mon.ok("design", g2 == g, tag + "utilization depends on the sign of the moments %s %s" % (g, g2))
    l = math.sqrt(R.NplRk / (math.pi ** 2 * R.EIeff / L ** 2))
    if abs(l - 2) > 1e-6:
        mon.ok("design", ("slenderness too large" in txt) == (l > 2), tag + "slenderness warning")
        w = re.findall(r"slenderness too large - (\S+) >", txt)
        if w:
            mon.close("design", float(w[0]), l, 0, 6e-3, tag + "slenderness in the warning")
    if abs(R.rho - 0.06) > 1e-9:
        mon.ok("design", ("too much rebar" in txt) == (R.rho > 0.06), tag + "rebar warning")


def make_tube(r, cons, bars):
    m = dict(L=r.uniform(2e3, 12e3), steel=pick_tube(r), con=r.choice(sorted(FCK)), d=r.choice([10, 12, 16, 20, 25]), nbars=4, ned=0, nged=0, med=[0.0, 0.0], lcr=[1.0, 1.0], RH=50, last="new")
    s = m["steel"]
    own = r.random() < 0.5
    bar = en1992_1_1.Rebar(m["d"]) if own else bars[m["d"]]
    if r.random() < 0.5:
        p = ConcreteFilledTube(m["L"], s, cons[m["con"]], bar)
        m["pos"] = [s.B / 2 - s.T - 30 - m["d"] / 2, s.H / 2 - s.T - 30 - m["d"] / 2]
        given = None
    else:
        m["pos"] = [r.uniform(0.3, 0.7) * s.B / 2, r.uniform(0.3, 0.7) * s.H / 2]
        given = list(m["pos"])
        p = ConcreteFilledTube(m["L"], s, cons[m["con"]], bar, rebar_pos=given)
    return p, m, given


def w_tube(r, mon):
    cons = {g: con92.Concrete(g) for g in FCK}
    bars = {d: en1992_1_1.Rebar(d) for d in (10, 12, 16, 20, 25)}
    tubes = [make_tube(r, cons, bars) for _ in range(r.choice([1, 2]))]
    mon.case([dict(m, steel=repr(m["steel"])) for _, m, _ in tubes])
    for i, (p, m, _) in enumerate(tubes):
        if r.random() < 0.7:
            R = TubeRef(m)
            m["ned"] = r.uniform(0.05, 0.7) * R.NplRd
            m["nged"] = r.uniform(0, 1) * m["ned"]
            p.ned, p.nged = m["ned"], m["nged"]
        R = check_tube(mon, p, m, "tube %d: " % i)
    for step in range(r.choice([2, 4, 6])):
        i = r.randrange(len(tubes))
        p, m, given = tubes[i]
        what = r.choice(["u", "v", "steel", "concrete", "rebar", "nbars", "length", "lcr", "force", "med", "pos", "given", "RH"])
        m["last"] = what
        s = m["steel"]
        if what == "u":
            x = r.uniform(15, 60)
            p.u = x
            m["pos"][1] = s.H / 2 - s.T - x - m["d"] / 2
        elif what == "v":
            x = r.uniform(15, 60)
            p.v = x
            m["pos"][0] = s.B / 2 - s.T - x - m["d"] / 2
        elif what == "steel":
            m["steel"] = pick_tube(r)
            p.steel = m["steel"]
        elif what == "concrete":
            m["con"] = r.choice(sorted(FCK))
            p.concrete = cons[m["con"]]
        elif what == "rebar":
            m["d"] = r.choice([10, 12, 16, 20, 25])
            p.rebar = bars[m["d"]]
        elif what == "nbars":
            m["nbars"] = r.choice([4, 8, 6])
            p.nbars = m["nbars"]
        elif what == "length":
            m["L"] = r.uniform(2e3, 12e3)
            p.length = m["L"]
        elif what == "lcr":
            m["lcr"] = [r.uniform(0.5, 2), r.uniform(0.5, 2)]
            p.lcr = list(m["lcr"])
        elif what == "force":
            m["ned"] = r.uniform(0.05, 0.7) * TubeRef(m).NplRd
            m["nged"] = r.choice([0, m["ned"], r.uniform(0, 1) * m["ned"]])
            if r.random() < 0.3:
                m["ned"], m["nged"] = -m["ned"], -m["nged"]
            p.ned, p.nged = m["ned"], m["nged"]
        elif what == "med":
            Mp = TubeRef(m).Mmax
            m["med"] = [r.choice([0, 1, -1]) * r.uniform(0, 0.5) * Mp, r.choice([0, 1, -1]) * r.uniform(0, 0.5) * Mp]
            if r.random() < 0.2:
                m["med"][1] = r.choice([-1, 1]) * m["med"][0]
            p.med = list(m["med"])
        elif what == "pos":
            m["pos"] = [r.uniform(0.3, 0.7) * s.B / 2, r.uniform(0.3, 0.7) * s.H / 2]
            p.rebar_pos = list(m["pos"])
        elif what == "given" and given is not None:
            given[0], given[1] = 1.0, 2.0      # the caller's list is not the column's
        elif what == "RH":
            for c in set(id(t[0].concrete) for t in tubes):
                pass
            rh = r.uniform(40, 90)
            for c in cons.values():
                c.RH = rh
            for t in tubes:
                t[1]["RH"] = rh
        if m["pos"][0] < m["d"] / 2 or m["pos"][1] < m["d"] / 2:
            raise vm.CaseSkip("bars over the centroid")
        j = r.randrange(len(tubes))
        for k in (i, j):
            R = check_tube(mon, tubes[k][0], tubes[k][1], "step %d (%s) tube %d: " % (step, what, k))
            check_design(mon, tubes[k][0], tubes[k][1], R, "step %d (%s) tube %d: " % (step, what, k))
    for i, (p, m, _) in enumerate(tubes):
        R = TubeRef(m)
        mon.close("independence", [p.NplRd(), p.Mpl_max_Rd()], [R.NplRd, R.Mmax], 1e-8, 0, "tube %d at the end" % i)


WORKLOADS = {
    "materials": (w_materials, 6000, 100000),
    "beam": (w_beam, 3000, 50000),
    "tube": (w_tube, 3000, 50000),
}

if __name__ == "__main__":
    vm.main(globals())
