"""S01: section geometry equals the integrals over the drawn cross-section."""
import os, sys, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vm
sys.path.insert(0, vm.VERIF)
import numpy as np
from ref import sections as rs

PROPERTY = "S01"
RULE = ("one case is one section (catalogue profile or random dimensions) of one family, optionally followed by a random "
        "sequence of dimension changes; its area, inertias, elastic/plastic moduli, perimeter, shear area, radii and mass are "
        "compared with numerical integration over the outline after construction and after every change. "
        "Non-trivial: distinct family and dimensions.")
MONITORS = ["area", "Iy", "Iz", "Wely", "Welz", "Wply", "Wplz", "perimeter", "shear area", "radii", "mass",
            "torsion", "warping", "rotate", "catalogue", "neutral axes", "section factor"]
ASSUMPTIONS = ["corner radius of cold-formed RHS: 2t (t<=6), 2.5t (t<=10), 3t (EN 10219)",
               "torsion constant of rolled profiles is compared with a finite-difference Prandtl solution within 4 % on sampled profiles"]

from metku.sections.steel.ISection import IPE, HEA, HEAA, HEB, HEC, HEM, ISection, CustomISection
from metku.sections.steel.RHS import RHS, SHS
from metku.sections.steel.CHS import CHS
from metku.sections.steel.wi import WISection
from metku.sections.steel.wq import WQSection
import metku.sections.steel.catalogue as cat

TOL = 2e-6


def compare(mon, tag, sec, shape, per, iztol=TOL, iytol=TOL, plastic=True):
    p = shape.props()
    d = tag
    mon.close("area", sec.A, p["A"], TOL, 0, d)
    mon.close("Iy", sec.I[0], p["Iy"], iytol, 0, d)
    mon.close("Iz", sec.I[1], p["Iz"], iztol, 0, d)
    mon.close("Wely", sec.Wel[0], p["Wely"], iytol, 0, d)
    mon.close("Welz", sec.Wel[1], p["Welz"], max(iztol, 1e-5), 0, d)
    if plastic:
        mon.close("Wply", sec.Wpl[0], p["Wply"], TOL, 0, d)
        mon.close("Wplz", sec.Wpl[1], p["Wplz"], TOL, 0, d)
    if per is not None:
        mon.close("perimeter", sec.Au, per, TOL, 0, d)
        mon.close("section factor", sec.section_factor, per / p["A"] * 1e3, 1e-5, 0, d)
    # derived quantities
    mon.close("radii", [sec.iy(), sec.iz(), sec.i0()],
              [math.sqrt(p["Iy"] / p["A"]), math.sqrt(p["Iz"] / p["A"]), math.sqrt((p["Iy"] + p["Iz"]) / p["A"])],
              max(iztol, 1e-5), 0, d)
    mon.close("mass", [sec.weight(), sec.self_weight()], [p["A"] * 7850e-9, p["A"] * 7850e-9 * 9.81], 1e-5, 0, d)
    mon.close("mass", sec.cost(), p["A"] * 7850e-9 * sec.unit_cost, 1e-5, 0, d)
    named = [sec.Iy, sec.Iz, sec.Wely, sec.Welz, sec.Wply, sec.Wplz]
    vecs = [sec.I[0], sec.I[1], sec.Wel[0], sec.Wel[1], sec.Wpl[0], sec.Wpl[1]]
    mon.close("rotate", named, vecs, 1e-12, 0, d)
    sec.rotate = True
    named = [sec.Iy, sec.Iz, sec.Wely, sec.Welz, sec.Wply, sec.Wplz]
    mon.close("rotate", named, [vecs[i] for i in (1, 0, 3, 2, 5, 4)], 1e-12, 0, d + " rotated")
    sec.rotate = False
    return p


def check_i(mon, tag, sec, h, b, tf, tw, r):
    shape, per = rs.rolled_i(h, b, tf, tw, r)
    # the published formulae for I use rounded fillet constants
    compare(mon, tag, sec, shape, per, iytol=2e-4, iztol=2e-4)
    A = shape.props()["A"]
    mon.close("shear area", sec.Ashear[1], A - 2 * b * tf + (tw + 2 * r) * tf, TOL, 0, tag)
    mon.close("warping", sec.Iw, tf * b ** 3 / 24 * (h - tf) ** 2, TOL, 0, tag)
    thin = (2 * b * tf ** 3 + (h - 2 * tf) * tw ** 3) / 3
    fillet = 3 * (1 + (r / tf) ** 2 * 3)
    mon.ok("torsion", 0.9 * thin < sec.It < thin * (1 + fillet), "%s It=%s thin=%s" % (tag, sec.It, thin))
    alpha = -0.042 + 0.2204 * tw / tf + 0.1355 * r / tf - 0.0865 * r * tw / tf ** 2 - 0.0725 * (tw / tf) ** 2
    D = ((tf + r) ** 2 + (r + tw / 4) * tw) / (2 * r + tf)
    mon.close("torsion", sec.It, 2 / 3 * b * tf ** 3 + (h - 2 * tf) * tw ** 3 / 3 + 2 * alpha * D ** 4 - 0.42 * tf ** 4,
              2e-3, 0, tag)
    mon.close("neutral axes", [sec.hw, sec.cf], [h - 2 * tf - 2 * r, (b - tw) / 2 - r], 1e-9, 1e-9, tag)
    mon.close("section factor", sec.box_section_factor, 2 * (b + h) / A * 1e3, 1e-5, 0, tag)


def rhs_R(t):
    return 2 * t if t <= 6 else (2.5 * t if t <= 10 else 3 * t)


def check_rhs(mon, tag, s, h, b, t):
    R = rhs_R(t)
    shape, per = rs.rect_tube(h, b, t, R)
    p = compare(mon, tag, s, shape, per)
    A = p["A"]
    mon.close("shear area", s.Ashear, [A * b / (b + h), A * h / (b + h)], TOL, 0, tag)
    # Bredt + St Venant on the midline
    rc = R - t / 2
    per_m = 2 * (h - t) + 2 * (b - t) - 8 * rc + 2 * math.pi * rc
    Am = (h - t) * (b - t) - (4 - math.pi) * rc ** 2
    mon.close("torsion", s.It, 4 * Am ** 2 * t / per_m + per_m * t ** 3 / 3, TOL, 0, tag)
    mon.close("neutral axes", [s.c_web, s.c_flange], [h - 2 * R, b - 2 * R], 1e-9, 1e-9, tag)
    mon.close("warping", s.Iw, 0.0, 0, 1e-9, tag)


HE = {"A": HEA, "AA": HEAA, "B": HEB, "C": HEC, "M": HEM}
FYS = [235, 275, 355, 420, "S355", "S275", "S460M", 500]


def fy_of(m):
    return {"S355": 355, "S275": 275, "S460M": 460}.get(m, m)


def w_rolled(r, mon):
    key = r.choice(sorted(cat.profile))
    v = cat.profile[key]
    fy = r.choice(FYS)
    parts = key.split()
    num = int(parts[1]) if parts[1].isdigit() else parts[1]
    mon.case(dict(profile=key, fy=fy))
    if parts[0] == "IPE":
        s = IPE(num, fy)
    else:
        s = HE[parts[2]](num, fy)
    mon.close("catalogue", [s.h, s.b, s.tf, s.tw, s.r], [v["h"], v["b"], v["t_f"], v["t_w"], v["r"]], 0, 0, key)
    mon.ok("catalogue", s.fy == fy_of(fy), "%s fy=%s" % (key, s.fy))
    mon.ok("catalogue", str(s) == key, "%s is called %s" % (key, s))
    check_i(mon, key, s, v["h"], v["b"], v["t_f"], v["t_w"], v["r"])
    mon.nontrivial(("rolled", key))


def w_custom_i(r, mon):
    h = r.uniform(80, 900)
    b = r.uniform(0.3, 1.1) * h
    tf = r.uniform(5, 0.08 * h + 5)
    tw = r.uniform(0.4, 1.0) * tf
    rr = r.uniform(5, min(30, 0.2 * h, 0.35 * b))
    mon.case(dict(h=h, b=b, tf=tf, tw=tw, r=rr))
    cls = r.choice([ISection, CustomISection])
    s = cls(h, b, tf, tw, rr, fy=r.choice(FYS))
    check_i(mon, cls.__name__, s, h, b, tf, tw, rr)
    mon.nontrivial(("I", round(h), round(b)))


def w_rhs(r, mon):
    sq = r.random() < 0.3
    t = round(r.uniform(2, 16), r.choice([0, 1, 3]))
    t = max(t, 2.0)
    if r.random() < 0.2:
        t = r.choice([6.0, 10.0, 6.1, 10.1, 5, 8, 12.5])
    R = rhs_R(t)
    h = round(2 * R + r.uniform(5, 350), r.choice([0, 1]))
    b = h if sq else round(2 * R + r.uniform(5, 350), r.choice([0, 1]))
    mon.case(dict(h=h, b=b, t=t))
    s = SHS(h, t, r.choice(FYS)) if sq else RHS(h, b, t, r.choice(FYS))
    check_rhs(mon, "RHS", s, h, b, t)
    mon.nontrivial(("rhs", h, b, t))
    hist = []
    for _ in range(r.randint(1, 4)):
        k = r.choice("HBT")
        if k == "T":
            t = round(r.uniform(2, 16), 1)
            while 2 * rhs_R(t) >= min(h, b) - 1:
                t *= 0.7
            s.T = t
        elif k == "H":
            h = round(2 * rhs_R(t) + r.uniform(5, 350), 1)
            s.H = h
        else:
            b = round(2 * rhs_R(t) + r.uniform(5, 350), 1)
            s.B = b
        hist.append((k, h, b, t))
        check_rhs(mon, "RHS after %s" % hist, s, h, b, t)


def w_chs(r, mon):
    d = round(r.uniform(20, 500), 1)
    t = round(r.uniform(1.5, min(16, 0.3 * d)), 1)
    mon.case(dict(d=d, t=t))
    s = CHS(d, t, r.choice(FYS))
    shape, per = rs.round_tube(d, t)
    p = compare(mon, "CHS", s, shape, per)
    mon.close("shear area", s.Ashear, [2 * p["A"] / math.pi] * 2, TOL, 0, "CHS")
    mon.close("torsion", s.It, 2 * p["Iy"], TOL, 0, "CHS")
    mon.nontrivial(("chs", d, t))


def check_wi(mon, tag, s, h, tw, bt, tt, bb, tb, fy):
    shape, per = rs.welded_i(h, tw, bt, tt, bb, tb)
    p = compare(mon, tag, s, shape, per)
    hw = h - tt - tb
    mon.close("neutral axes", [s.elastic_neutral_axis(), s.plastic_neutral_axis()], [p["zc"], p["zp"]], 1e-6, 1e-6 * h, tag)
    eta = 1.2 if fy <= 460 else 1.0
    mon.close("shear area", s.Ashear[1], eta * hw * tw, TOL, 0, tag)
    mon.close("torsion", s.It, (bt * tt ** 3 + bb * tb ** 3 + hw * tw ** 3) / 3, TOL, 0, tag)
    I1, I2, Iw_ = tt * bt ** 3 / 12, tb * bb ** 3 / 12, hw * tw ** 3 / 12
    hs = h - tt / 2 - tb / 2
    lo = I1 * I2 / (I1 + I2) * hs ** 2
    hi = lo * (1 + Iw_ / min(I1, I2)) * 1.001
    mon.ok("warping", lo * 0.999 - lo * Iw_ / (I1 + I2) <= s.Iw <= hi, "%s Iw=%s in [%s,%s]" % (tag, s.Iw, lo, hi))
    z1, z2, z3 = h - tt / 2 - p["zc"], tb / 2 - p["zc"], tb + hw / 2 - p["zc"]
    mon.close("neutral axes", s.shear_centre(), (I1 * z1 + I2 * z2 + Iw_ * z3) / (I1 + I2 + Iw_), 1e-6, 1e-6 * h, tag)


def w_welded(r, mon):
    h = r.uniform(200, 1800)
    tw = r.uniform(4, 20)
    bt, bb = r.uniform(100, 500), r.uniform(100, 500)
    tt, tb = r.uniform(6, 45), r.uniform(6, 45)
    if r.random() < 0.5:
        bb, tb = bt, tt
    fy = r.choice([235, 355, 420, "S355"])
    mon.case(dict(h=h, tw=tw, b=[bt, bb], tf=[tt, tb], fy=fy))
    if bt == bb and tt == tb and r.random() < 0.5:
        s = WISection(h, tw, bt, tt, fy)
    else:
        s = WISection(h, tw, [bt, bb], [tt, tb], fy)
    check_wi(mon, "WI", s, h, tw, bt, tt, bb, tb, fy_of(fy))
    mon.nontrivial(("wi", round(h), round(bt), round(bb)))
    hist = []
    for _ in range(r.randint(1, 4)):
        k = r.choice(["h", "hw", "tw", "bt", "bb", "tt", "tb", "b", "tf"])
        if k == "h":
            h = r.uniform(200, 1800); s.h = h
        elif k == "hw":
            hw = r.uniform(150, 1500); s.hw = hw; h = hw + tt + tb
        elif k == "tw":
            tw = r.uniform(4, 20); s.tw = tw
        elif k == "bt":
            bt = r.uniform(100, 500); s.bt = bt
        elif k == "bb":
            bb = r.uniform(100, 500); s.bb = bb
        elif k == "tt":
            tt = r.uniform(6, 45); s.tt = tt
        elif k == "tb":
            tb = r.uniform(6, 45); s.tb = tb
        elif k == "b":
            bt = bb = r.uniform(100, 500); s.b = bt
        else:
            tt = tb = r.uniform(6, 45); s.tf = tt
        hist.append(k)
        check_wi(mon, "WI after %s" % hist, s, h, tw, bt, tt, bb, tb, fy_of(fy))


def w_wq(r, mon):
    h = r.uniform(150, 600)
    tw = r.uniform(5, 15)
    bt = r.uniform(100, 350)
    # the plastic neutral axis may lie in the webs or in either flange
    tt = r.choice([r.uniform(8, 35), r.uniform(35, 70)])
    bb = bt + 2 * tw + r.choice([0.0, r.uniform(100, 300), r.uniform(100, 300)])
    tb = r.choice([r.uniform(8, 35), r.uniform(35, 70)])
    mon.case(dict(h=h, tw=tw, b=[bt, bb], tf=[tt, tb]))
    s = WQSection(h, tw, [bt, bb], [tt, tb], r.choice(FYS))
    shape, _ = rs.wq(h, tw, bt, tt, bb, tb)
    p = compare(mon, "WQ", s, shape, 2 * bb + 2 * tb + 2 * h)
    mon.close("neutral axes", s.elastic_neutral_axis(), p["zc"], 1e-6, 0, "WQ")
    mon.close("neutral axes", tb + h - tt - s.plastic_neutral_axis(), p["zp"], 1e-6, 1e-6, "WQ plastic")
    mon.close("shear area", s.shear_area(), 2 * (h - tt) * tw * (1.2 if s.fy <= 460 else 1.0), 1e-9, 0, "WQ")
    where = "top" if p["zp"] > tb + h - tt else "bottom" if p["zp"] < tb else "web"
    mon.nontrivial(("wq", where, round(h), round(bt)))


def w_profile_table(r, mon):
    """metku.profiles: table of rolled profiles and its property formulas"""
    from metku.profiles.steel import ISections
    from metku.profiles.steel.isections import ISection as PSection
    if r.random() < 0.6:
        name = r.choice([n for n in vars(ISections) if n[:2] in ("IP", "HE")])
        q = getattr(ISections, name)
        key = "IPE " + name[3:] if name.startswith("IPE") else "HE %s %s" % (name[3:], name[2])
        v = cat.profile[key]
        dims = (v["h"], v["b"], v["t_f"], v["t_w"], v["r"])
        mon.case(dict(name=name))
        mon.close("catalogue", [q.h, q.b, q.tf, q.tw, q.r], dims, 0, 0, name)
        mon.ok("catalogue", q.name == name, name)
    else:
        h = r.uniform(80, 900)
        b = r.uniform(0.3, 1.1) * h
        tf = r.uniform(5, 0.08 * h + 5)
        tw = r.uniform(0.4, 1.0) * tf
        dims = (h, b, tf, tw, r.uniform(5, min(30, 0.2 * h, 0.35 * b)))
        q = PSection("x", h, b, tw, tf, dims[4])
        name = "custom"
        mon.case(dict(dims=dims))
    for step in range(2):
        h, b, tf, tw, rr = dims
        shape, per = rs.rolled_i(h, b, tf, tw, rr)
        p = shape.props()
        d = "profiles %s %s" % (name, dims)
        mon.close("area", q.A, p["A"], TOL, 0, d)
        for nm, want in (("Iy", p["Iy"]), ("Iz", p["Iz"]), ("Wely", p["Wely"]), ("Welz", p["Welz"])):
            mon.close(nm, getattr(q, nm), want, 2e-4, 0, d)
        mon.close("Wply", q.Wply, p["Wply"], TOL, 0, d)
        mon.close("Wplz", q.Wplz, p["Wplz"], TOL, 0, d)
        mon.close("perimeter", q.P, per, TOL, 0, d)
        mon.close("shear area", [q.Avz, q.Avy], [p["A"] - 2 * b * tf + (tw + 2 * rr) * tf, 2 * b * tf], TOL, 0, d)
        mon.close("radii", [q.iy, q.iz], [math.sqrt(p["Iy"] / p["A"]), math.sqrt(p["Iz"] / p["A"])], 2e-4, 0, d)
        mon.close("warping", q.Iw, tf * b ** 3 / 24 * (h - tf) ** 2, TOL, 0, d)
        mon.close("torsion", q.It, CustomISection(h, b, tf, tw, rr).It, 1e-9, 0, d)
        import copy
        q = copy.copy(q)
        q.b = b * r.uniform(1.0, 1.5)
        q.tf = tf * r.uniform(1.0, 1.3)
        dims = (h, q.b, q.tf, tw, rr)
    mon.nontrivial((name, round(dims[0]), round(dims[1])))


def probe_catalogue(mon):
    """internal redundancy of the catalogue: duplicated tables, names, masses"""
    mon.case("catalogue tables")
    for d in (cat.ipe_profiles, cat.hea_profiles, cat.heb_profiles, cat.h_profiles):
        for k, v in d.items():
            mon.ok("catalogue", cat.profile.get(k) == v, "%s differs between tables: %s %s" % (k, v, cat.profile.get(k)))
    for k, v in cat.profile.items():
        mon.ok("catalogue", v["t_w"] < v["t_f"] < v["h"] / 2 and v["r"] < v["b"] / 2 and v["t_w"] > 0, k)
    for k, v in cat.rhs_profiles.items():
        hh, bb, tt = k.split()[1].lower().split("x")
        mon.close("catalogue", [v["h"], v["b"], v["t"]], [float(hh), float(bb), float(tt)], 0, 1e-9, k)
        s = cat.make_section("RHS " + k.split()[1])
        mon.close("catalogue", [s.H, s.B, s.T], [v["h"], v["b"], v["t"]], 0, 1e-9, k)
        mon.close("catalogue", v["r"], rhs_R(v["t"]), 0, 1e-9, k)
        if "kgm" in v:
            mon.close("catalogue", s.A * 7.85e-3, v["kgm"], 0.02, 0, k + " mass")
    for k, v in cat.shs_profiles.items():
        hh, bb, tt = k.split()[1].split("X")
        mon.close("catalogue", [v["h"], v["b"], v["t"], v["r"]], [float(hh), float(bb), float(tt), rhs_R(v["t"])], 0, 1e-9, k)
    for k, v in cat.chs_profiles.items():
        d, t = k.split()[1].split("X")
        mon.close("catalogue", [v["d"], v["t"]], [float(d), float(t)], 0, 1e-9, k)
    for k, v in list(cat.ipe_profiles.items()) + list(cat.hea_profiles.items()) + list(cat.heb_profiles.items()):
        s = cat.make_section(k)
        mon.close("catalogue", [s.h, s.b, s.tf, s.tw, s.r], [v["h"], v["b"], v["t_f"], v["t_w"], v["r"]], 0, 0, k)


def probe_mass_tables(mon):
    """published masses (kg/m) of rolled profiles"""
    mon.case("published masses")
    ipe = {80: 6.0, 100: 8.1, 120: 10.4, 140: 12.9, 160: 15.8, 180: 18.8, 200: 22.4, 220: 26.2, 240: 30.7, 270: 36.1,
           300: 42.2, 330: 49.1, 360: 57.1, 400: 66.3, 450: 77.6, 500: 90.7, 550: 106, 600: 122}
    hea = {100: 16.7, 120: 19.9, 140: 24.7, 160: 30.4, 180: 35.5, 200: 42.3, 220: 50.5, 240: 60.3, 260: 68.2, 280: 76.4,
           300: 88.3, 320: 97.6, 340: 105, 360: 112, 400: 125, 450: 140, 500: 155, 550: 166, 600: 178, 650: 190, 700: 204,
           800: 224, 900: 252, 1000: 272}
    heb = {100: 20.4, 120: 26.7, 140: 33.7, 160: 42.6, 180: 51.2, 200: 61.3, 220: 71.5, 240: 83.2, 260: 93.0, 280: 103,
           300: 117, 320: 127, 340: 134, 360: 142, 400: 155, 450: 171, 500: 187, 550: 199, 600: 212, 650: 225, 700: 241,
           800: 262, 900: 291, 1000: 314}
    for cls, tab in ((IPE, ipe), (HEA, hea), (HEB, heb)):
        for k, g in tab.items():
            mon.close("catalogue", cls(k).weight() * 1e3, g, 0.008, 0, "%s %s" % (cls.__name__, k))


def probe_torsion(mon):
    """finite-difference Prandtl torsion constant of a few rolled profiles"""
    mon.case("torsion constants")
    for cls, num in ((IPE, 200), (HEA, 160), (HEB, 140), (HEM, 100)):
        s = cls(num)
        h, b, tf, tw, rr = s.h, s.b, s.tf, s.tw, s.r

        def inside(x, z):
            x, z = np.abs(x), np.abs(z)
            e = 0.3 * tw / 10
            fl = (z > h / 2 - tf + e) & (z < h / 2 - e) & (x < b / 2 - e)
            web = (x < tw / 2 - e) & (z < h / 2 - e)
            dx, dz = x - tw / 2, (h / 2 - tf) - z
            fil = (dx >= -2 * e) & (dz >= -2 * e) & (x < tw / 2 + rr) & (dx < rr) & (dz < rr) & ((dx - rr) ** 2 + (dz - rr) ** 2 > rr ** 2)
            return fl | web | fil
        hx = tw / 10
        hz = h / round(h / (tf / 10))
        m = int(b / 2 / hx) + 3
        xs = np.arange(-m, m + 1) * hx
        zs = np.arange(-2, round(h / hz) + 3) * hz - h / 2
        J = rs.torsion_constant(inside, xs, zs)
        mon.close("torsion", s.It, J, 0.04, 0, repr(s))
        mon.nontrivial(("torsion", repr(s)))


WORKLOADS = {"rolled": (w_rolled, 200, 2000), "custom_i": (w_custom_i, 80, 2000), "profiles": (w_profile_table, 120, 1500), "rhs": (w_rhs, 150, 4000),
             "chs": (w_chs, 80, 1500), "welded": (w_welded, 150, 4000), "wq": (w_wq, 80, 1500)}
PROBES = [probe_catalogue, probe_mass_tables, probe_torsion]

if __name__ == "__main__":
    vm.main(globals())
