"""S04: the profile library (ISections), its steels and cross-section resistances."""
import os, sys, math, copy, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vm
sys.path.insert(0, vm.VERIF)
import numpy as np
import metku.eurocodes.en1993
import metku.profiles.steel.isections as IS
from metku.profiles.steel import ISections
from metku.design import SteelSection
from metku.materials.steel import Steel, StainlessSteel, SteelMaterial
from metku.sections.steel.catalogue import ipe_profiles, h_profiles
import ref.sections as RS

PROPERTY = "S04"
RULE = ("every profile of the library and random I profiles (any dimensions, with and without fillets), changed dimension by dimension and copied in interleaved histories; every steel of "
        "the library and random steels; design sections that exchange profile, steel and forces. Non-trivial: distinct (profile or dimensions, steel, edits).")
MONITORS = ["dimensions", "area", "bending", "shear areas", "torsion", "radii", "perimeter", "published", "copies", "resistance", "steels"]
NAMES = [n for n in vars(ISections) if isinstance(vars(ISections)[n], IS.ISection)]

# EN 1993-1-1 Table 3.1 (thickness up to 40 mm), EN 1993-1-4 Table 2.1 for 1.4301
STEELS = [(Steel.S235, 235, 360, 210e3), (Steel.S275, 275, 430, 210e3), (Steel.S355, 355, 510, 210e3), (Steel.S355J2H, 355, 510, 210e3), (Steel.S420, 420, 500, 210e3),
          (StainlessSteel.EN14301_coldstrip, 230, 540, 200e3), (StainlessSteel.EN14301_hotsrip, 210, 520, 200e3), (StainlessSteel.EN14301_hotplate, 210, 520, 200e3),
          (StainlessSteel.EN14301_sections, 190, 500, 200e3)]
# printed tables (ArcelorMittal; torsion constants of SCI P363/P385): A, Iy, Iz, It, Iw, Wply, Wplz, Avz
PUB = {"IPE300": (5381, 83.56e6, 6.038e6, 0.201e6, 0.1259e12, 628.4e3, 125.2e3, 2568),
       "HEA200": (5383, 36.92e6, 13.36e6, 0.2098e6, 0.1080e12, 429.5e3, 203.8e3, 1808),
       "HEB300": (14908, 251.7e6, 85.63e6, 1.85e6, 1.688e12, 1869e3, 870.1e3, 4743),
       "HEM200": (13130, 106.4e6, 36.51e6, 2.594e6, 0.3463e12, 1135e3, 543.2e3, 4103)}


def oracle(h, b, tw, tf, r):
    p = RS.rolled_i(h, b, tf, tw, r)[0].props()
    A = p["A"]
    a1 = -0.042+0.2204*tw/tf+0.1355*r/tf-0.0865*r*tw/tf**2-0.0725*(tw/tf)**2
    D1 = ((tf+r)**2+(r+0.25*tw)*tw)/(2*r+tf)
    It = 2/3*b*tf**3+(h-2*tf)*tw**3/3+2*a1*D1**4-0.420*tf**4
    # the two flanges bend in opposite directions
    Iw = 2*(tf*b**3/12)*((h-tf)/2)**2
    return dict(A=A, Iy=p["Iy"], Iz=p["Iz"], It=It, Iw=Iw, Wply=p["Wply"], Wplz=p["Wplz"], Wely=p["Wely"], Welz=p["Welz"],
                Avz=A-2*b*tf+(tw+2*r)*tf, Avy=2*b*tf, P=4*b+4*tf-2*tw-4*r+2*(h-2*tf)-4*r+2*math.pi*r, iy=math.sqrt(p["Iy"]/A), iz=math.sqrt(p["Iz"]/A))


def check(mon, s, d, tag=""):
    o = oracle(**d)
    t = lambda n: tag+n
    for k in ("h", "b", "tw", "tf", "r"):
        mon.close(t("dimensions"), getattr(s, k), d[k], 1e-12, 0, k)
    mon.close(t("area"), s.A, o["A"], 1e-9, 0)
    for k in ("Iy", "Iz", "Wely", "Welz"):
        # the constants of the fillets are rounded (0.03, 0.2146, 0.4468)
        h, b, tw, tf = (d[q] for q in ("h", "b", "tw", "tf"))
        I0 = (b*h**3-(b-tw)*(h-2*tf)**3)/12 if k[-1] == "y" else (2*tf*b**3+(h-2*tf)*tw**3)/12
        W = 1 if k[0] == "I" else 0.5*(h if k[-1] == "y" else b)
        mon.close(t("bending"), getattr(s, k), o[k], 1e-9, 2e-3*(o[k]-I0/W), k)
    mon.close(t("bending"), list(s.I), [s.Iy, s.Iz], 1e-12, 0)
    for k in ("Wply", "Wplz"):
        mon.close(t("bending"), getattr(s, k), o[k], 1e-9, 0, k)
    for k in ("Avz", "Avy"):
        mon.close(t("shear areas"), getattr(s, k), o[k], 1e-9, 0, k)
    for k in ("It", "Iw"):
        mon.close(t("torsion"), getattr(s, k), o[k], 1e-9, 1e-9*abs(o["Iw"] if k == "Iw" else d["b"]*d["tf"]**3), k)
    for k in ("iy", "iz"):
        mon.close(t("radii"), getattr(s, k), o[k], 1e-3, 0, k)
    mon.close(t("perimeter"), s.P, o["P"], 1e-9, 0)
    return o


def resist(mon, c, m, s, o):
    fy = m.fy
    want = dict(NcRd=s.A*fy, NtRd=s.A*fy, VyRd=o["Avy"]*fy/math.sqrt(3), VzRd=o["Avz"]*fy/math.sqrt(3), MplyRd=o["Wply"]*fy, MplzRd=o["Wplz"]*fy, MelyRd=o["Wely"]*fy, MelzRd=o["Welz"]*fy)
    for k, w in want.items():
        mon.close("resistance", getattr(c, k), w, 2e-3, 0, k)
        if k[:2] != "Me":
            mon.close("resistance", getattr(c, k), w, 1e-9, 0, k)
    mon.ok("resistance", c.MelyRd < c.MplyRd and c.MelzRd < c.MplzRd, "elastic below plastic")


def rand_dims(r):
    b = r.uniform(40, 500)
    h = r.uniform(0.6, 3)*b
    tf = r.uniform(0.03, 0.12)*min(b, h)
    tw = r.uniform(0.4, 1.0)*tf
    rad = r.choice([0.0, r.uniform(0, 1)*min(2*tf, 0.4*(b-tw)/2, 0.4*(h-2*tf)/2)])
    return dict(h=h, b=b, tw=tw, tf=tf, r=rad)


def w_library(r, mon):
    n = r.choice(NAMES)
    s = getattr(ISections, n)
    m, fy, fu, E = r.choice(STEELS)
    mon.case(dict(n=n, steel=fy))
    k = re.match(r"([A-Z]+?)(\d+)$", n)
    c = ipe_profiles["IPE "+k[2]] if k[1] == "IPE" else h_profiles["HE %s %s" % (k[2], k[1][2:])]
    d = dict(h=c["h"], b=c["b"], tw=c["t_w"], tf=c["t_f"], r=c["r"])
    mon.ok("dimensions", s.name == n and n in str(s), "%s is named %s" % (n, s.name))
    o = check(mon, s, d)
    if n in PUB:
        for q, v in zip(("A", "Iy", "Iz", "It", "Iw", "Wply", "Wplz", "Avz"), PUB[n]):
            mon.close("published", getattr(s, q), v, 3e-2 if q == "It" else 3e-3, 0, n+" "+q)
    mon.ok("steels", (m.fy, m.fu, m.E, m.nu, m.rho, m.fy_40) == (fy, fu, E, 0.3, 7850, fy), "steel fy %s: %s" % (fy, m))
    resist(mon, SteelSection(material=m, profile=s), m, s, o)
    mon.nontrivial((n, fy))


def w_histories(r, mon):
    """profiles, copies and design sections changed one after the other"""
    ps = []
    for _ in range(r.choice([1, 2, 3])):
        d = rand_dims(r)
        ps.append([IS.ISection(name="X%d" % len(ps), **d), d])
    fy = r.choice([235, 355, 690, r.uniform(150, 1000)])
    ms = [SteelMaterial(fy=fy, fu=fy*1.2), SteelMaterial(fy=460, fu=540, fy_40=430, E=205e3)]
    mon.ok("steels", ms[0].fy_40 == fy and ms[1].fy_40 == 430 and ms[0].E == 210e3 and ms[1].E == 205e3 and ms[0].nu == 0.3, "custom steels")
    cs = [[SteelSection(material=r.choice(ms), profile=p[0]), i] for i, p in enumerate(ps)]
    mon.case(dict(d=[p[1] for p in ps], fy=fy))
    log = []
    for _ in range(r.randint(1, 6)):
        a = r.choice(["dim", "dim", "copy", "swap", "fy", "force"])
        log.append(a)
        i = r.randrange(len(ps))
        if a == "dim":
            k = r.choice(list("hb")+["tw", "tf", "r"])
            v = ps[i][1][k]*r.uniform(0.8, 1.1)
            setattr(ps[i][0], k, v)
            ps[i][1][k] = v
        elif a == "copy":
            s = copy.copy(ps[i][0])
            mon.ok("copies", s is not ps[i][0] and s == ps[i][0], "copy of %r is %r" % (ps[i][0], s))
            ps.append([s, dict(ps[i][1])])
        elif a == "swap":
            c = r.choice(cs)
            c[0].profile, c[1] = ps[i][0], i
        elif a == "fy":
            r.choice(ms).fy = r.uniform(150, 900)
        else:
            c = r.choice(cs)[0]
            c.N, c.My = 1e5, -2e7
            mon.ok("copies", sum(x[0].N == 1e5 for x in cs) >= 1 and all(x[0].N in (0, 1e5) for x in cs), "forces")
    os_ = [check(mon, s, d) for s, d in ps]
    for c, i in cs:
        mon.ok("copies", c.profile is ps[i][0], "profile of a section")
        resist(mon, c, c.material, c.profile, os_[i])
    x = IS.ISection()
    mon.ok("copies", x.dimensions == (0, 0, 0, 0, 0), "defaults")
    mon.nontrivial((tuple(log), len(ps)))


WORKLOADS = {"library": (w_library, 900, 6000), "histories": (w_histories, 500, 12000)}

if __name__ == "__main__":
    vm.main(globals())
