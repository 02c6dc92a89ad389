"""E02: wind loads of EN 1991-1-4 (Finnish National Annex)."""
import os, sys, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vm
import numpy as np
from metku.eurocodes.en1991 import en1991_1_4 as W

PROPERTY = "E02"
RULE = ("one case is a random building (dimensions, height, terrain category, basic velocity, wind direction, roof slope); velocity, turbulence and pressure are compared with EN 1991-1-4 Section 4, the zones and pressures of walls, flat and monopitch roofs with Tables 7.1-7.3a "
        "re-entered from the standard, and relations between evaluations (height, velocity, mirrored building, zone areas, continuity over table limits) are monitored. Non-trivial: distinct (terrain, h below minimum, zone case, h/d range, slope range).")
MONITORS = ["velocity", "turbulence", "peak pressure", "monotone", "wall zones", "wall pressure", "flat roof zones", "flat roof pressure", "monopitch", "continuity"]

Z0 = {0: (0.003, 1.0), 1: (0.01, 1.0), 2: (0.05, 2.0), 3: (0.3, 5.0), 4: (1.0, 10.0)}


def table(x, pts):
    """piecewise linear, constant outside"""
    return float(np.interp(x, [p[0] for p in pts], [p[1] for p in pts]))


def w_velocity(r, mon):
    cat = r.randrange(5)
    z = r.choice([r.uniform(0.1, 12), r.uniform(5, 200), Z0[cat][1], 10.0])
    vb0, cd, cs = r.uniform(15, 30), r.uniform(0.7, 1.0), r.uniform(0.7, 1.0)
    mon.case(dict(cat=cat, z=z, vb0=vb0, cdir=cd, cseason=cs))
    vb = W.basic_wind_velocity(vb0, cd, cs)
    mon.close("velocity", vb, vb0 * cd * cs, 1e-12, 0, "vb")
    z0, zmin = Z0[cat]
    kr = 0.18 if cat == 0 else 0.19 * (z0 / 0.05) ** 0.07
    cr = kr * math.log(max(z, zmin) / z0)
    mon.close("velocity", W.terrain_roughness(z, cat), cr, 1e-9, 0, "cr")
    mon.close("velocity", W.mean_wind_velocity(vb, z, cat), vb * cr, 1e-9, 0, "vm")
    Iv = 1 / math.log(max(z, zmin) / z0)
    mon.close("turbulence", W.turbulence_intensity(z, cat), Iv, 1e-9, 0, "Iv")
    rho = r.uniform(1.1, 1.3)
    mon.close("peak pressure", W.basic_velocity_pressure(vb, rho), 0.5 * rho * vb ** 2, 1e-9, 0, "qb")
    qp = (1 + 7 * Iv) * 0.5 * 1.25 * (vb * cr) ** 2
    mon.close("peak pressure", W.peak_velocity_pressure(z, cat, vb), qp, 1e-9, 0, "qp")
    z2, v2 = z + r.uniform(0, 20), vb + r.uniform(0, 5)
    mon.ok("monotone", W.peak_velocity_pressure(z2, cat, vb) >= W.peak_velocity_pressure(z, cat, vb) * (1 - 1e-12), "peak pressure decreases with height")
    mon.close("monotone", W.peak_velocity_pressure(z, cat, v2) / qp, (v2 / vb) ** 2, 1e-9, 0, "peak pressure with velocity")
    c = r.uniform(-2, 1)
    mon.close("peak pressure", W.wind_pressure_ext(qp, c), qp * c, 1e-12, 0, "we")
    mon.close("peak pressure", W.wind_pressure_int(qp, c), qp * c, 1e-12, 0, "wi")
    if r.random() < 0.3:
        mon.close("velocity", W.basic_wind_velocity(), 21.0, 1e-12, 0, "default velocity")
    mon.nontrivial((cat, z < zmin, round(z / 20)))


def dims(r):
    h = r.uniform(2, 25)
    length, width = r.uniform(4, 100), r.uniform(4, 60)
    # also proportions at the limits of the tables
    s = r.random()
    if s < 0.2:
        width = r.choice([h, 4 * h, h / 5, 2 * h, 0.4 * h])
    elif s < 0.3:
        length = r.choice([h, 4 * h, h / 5])
    return length, width, h


def w_walls(r, mon):
    length, width, h = dims(r)
    wd = r.choice(["long", "short"])
    b, d = (length, width) if wd == "long" else (width, length)
    if r.random() < 0.15:                # small facades: coefficients for loaded areas below 10 m2
        length, width, h = (r.uniform(0.4, 4) for _ in range(3))
        b, d = (length, width) if wd == "long" else (width, length)
    qp = r.uniform(300, 1500)
    mon.case(dict(length=length, width=width, h=h, dir=wd, qp=qp))
    z = W.rect_building_wall_pressure(length, width, h, qp, wd)
    e = min(b, 2 * h)
    A = min(e / 5, d)
    B = min(e, d) - A
    Cz = max(d - e, 0)
    mon.close("wall zones", [z[k]["length"] for k in "ABC"], [A, B, Cz], 1e-9, 1e-9, "side zones")
    mon.close("wall zones", sum(z[k]["length"] for k in "ABC"), d, 1e-9, 1e-9, "zones cover the side")
    mon.close("wall zones", [z["D"]["length"], z["E"]["length"]], [b, b], 1e-9, 0, "windward and leeward")
    hd = h / d
    cpe = {"A": -1.2, "B": -0.8, "C": -0.5, "D": table(hd, [(0.25, 0.7), (1, 0.8), (5, 0.8)]), "E": table(hd, [(0.25, -0.3), (1, -0.5), (5, -0.7)])}
    cpe1 = {"A": -1.4, "B": -1.1, "C": -0.5, "D": 1.0, "E": cpe["E"]}
    la = min(max(math.log10(b * h), 0.0), 1.0)
    for k, c in cpe.items():
        c = cpe[k] = cpe1[k] - (cpe1[k] - c) * la
        mon.close("wall pressure", z[k]["cpe"], c, 1e-9, 1e-9, "zone %s h/d=%g" % (k, hd))
        mon.close("wall pressure", z[k]["we"], qp * c, 1e-9, 1e-6, "zone %s pressure" % k)
    # the building turned by 90 degrees
    y = W.rect_building_wall_pressure(width, length, h, qp, "short" if wd == "long" else "long")
    mon.ok("wall pressure", y == z, "turned building %s %s" % (z, y))
    h2 = h * (1 + 1e-7)
    y = W.rect_building_wall_pressure(length, width, h2, qp, wd)
    mon.close("continuity", [y[k]["cpe"] for k in "ABCDE"], [z[k]["cpe"] for k in "ABCDE"], 1e-5, 1e-5, "coefficients jump at h=%g" % h)
    mon.nontrivial(("walls", wd, b * h < 10, e < d, e >= 5 * d, hd >= 5, hd >= 1, hd >= 0.25))


def w_flat(r, mon):
    length, width, h = dims(r)
    b, d = r.choice([(length, width), (width, length)])
    qp = r.uniform(300, 1500)
    mon.case(dict(b=b, d=d, h=h, qp=qp))
    z = W.flat_roof_pressure(d, b, h, qp)
    e = min(b, 2 * h)
    if d < 0.1 * e:
        raise vm.CaseSkip("building shallower than the edge zone")
    w = [0.1 * e, 0.1 * e, min(0.4 * e, d - 0.1 * e), max(d - 0.5 * e, 0)]
    mon.close("flat roof zones", [z[k]["width"] for k in "FGHI"], w, 1e-9, 1e-9, "widths")
    mon.close("flat roof zones", [z[k]["length"] for k in "FGHI"], [e / 4, b - e / 2, b, b], 1e-9, 1e-9, "lengths")
    area = sum(z[k]["width"] * z[k]["length"] for k in "GHI") + 2 * z["F"]["width"] * z["F"]["length"]
    mon.close("flat roof zones", area, b * d, 1e-9, 1e-9, "zones cover the roof")
    for k, c in {"F": -1.8, "G": -1.2, "H": -0.7}.items():
        mon.close("flat roof pressure", [z[k]["cpe"], z[k]["we"]], [c, qp * c], 1e-9, 1e-9, "zone " + k)
    mon.close("flat roof pressure", sorted(z["I"]["cpe"]), [-0.2, 0.2], 1e-9, 1e-9, "zone I")
    mon.close("flat roof pressure", sorted(z["I"]["we"]), [-0.2 * qp, 0.2 * qp], 1e-9, 1e-9, "zone I pressure")
    mon.nontrivial(("flat", b < 2 * h, d < e / 2))


# Table 7.3a: slope: zone: (cpe10-, cpe1-, cpe+); wind on the low (0) and high (180) eaves
UP = {5: {"F": (-1.7, -2.5, 0.0), "G": (-1.2, -2.0, 0.0), "H": (-0.6, -1.2, 0.0)},
      15: {"F": (-0.9, -2.0, 0.2), "G": (-0.8, -1.5, 0.2), "H": (-0.3, -0.3, 0.2)},
      30: {"F": (-0.5, -1.5, 0.7), "G": (-0.5, -1.5, 0.7), "H": (-0.2, -0.2, 0.4)},
      45: {"F": (0.0, 0.0, 0.7), "G": (0.0, 0.0, 0.7), "H": (0.0, 0.0, 0.6)},
      60: {"F": (0.7,) * 3, "G": (0.7,) * 3, "H": (0.7,) * 3},
      75: {"F": (0.8,) * 3, "G": (0.8,) * 3, "H": (0.8,) * 3}}
DOWN = {5: {"F": (-2.3, -2.5), "G": (-1.3, -2.0), "H": (-0.8, -1.2)},
        15: {"F": (-2.5, -2.8), "G": (-1.3, -2.0), "H": (-0.9, -1.2)},
        30: {"F": (-1.1, -2.3), "G": (-0.8, -1.5), "H": (-0.8, -0.8)},
        45: {"F": (-0.6, -1.3), "G": (-0.5, -0.5), "H": (-0.7, -0.7)},
        60: {"F": (-0.5, -1.0), "G": (-0.5, -0.5), "H": (-0.5, -0.5)},
        75: {"F": (-0.5, -1.0), "G": (-0.5, -0.5), "H": (-0.5, -0.5)}}


def w_mono(r, mon):
    a = r.choice([r.uniform(5, 85), r.uniform(5, 15), float(r.choice([5, 15, 30, 45, 60, 75])), r.choice([5, 15, 30, 45, 60, 75]) + 1e-9])
    d = r.choice([0, 180])
    mon.case(dict(angle=a, direction=d))
    P = W.ExternalPressureMonoRoof(d, a)
    for k in "FGH":
        g = getattr(P, k)
        if d == 180:
            for j, c in enumerate(("cpe10", "cpe1")):
                mon.close("monopitch", g[c], table(a, [(s, v[k][j]) for s, v in DOWN.items()]), 1e-6, 1e-6, "high eaves zone %s %s slope %g" % (k, c, a))
        else:
            pos = table(a, [(s, v[k][2]) for s, v in UP.items()])
            for j, c in enumerate(("cpe10", "cpe1")):
                # between 45 and 60 degrees suction ends: the negative value may be taken as zero
                neg = table(a, [(s, v[k][j]) for s, v in UP.items()]) if a < 45 else None
                got = list(np.atleast_1d(g[c]))
                mon.close("monopitch", max(got), pos, 1e-6, 1e-6, "low eaves zone %s %s slope %g, positive" % (k, c, a))
                if neg is not None:
                    mon.close("monopitch", min(got), neg, 1e-6, 1e-6, "low eaves zone %s %s slope %g, negative" % (k, c, a))
    if a + 1e-7 < 85:
        Q = W.ExternalPressureMonoRoof(d, a + 1e-7)
        for k in "FGH":
            for c in ("cpe10", "cpe1"):
                mon.close("continuity", np.max(getattr(Q, k)[c]), np.max(getattr(P, k)[c]), 1e-5, 1e-5, "slope %g zone %s" % (a, k))
    mon.nontrivial(("mono", d, int(a // 5)))


WORKLOADS = {"velocity": (w_velocity, 6000, 100000), "walls": (w_walls, 8000, 150000), "flat": (w_flat, 5000, 100000), "mono": (w_mono, 6000, 100000)}

if __name__ == "__main__":
    vm.main(globals())
