"""B02: bolted fin plate joints."""
import os, sys, math, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vm
from metku.eurocodes.en1993.en1993_1_8.en1993_1_8 import Bolt
from metku.structures.steel.fin_plate_joint import FinPlateJoint
from metku.structures.steel.plates import RectPlateWithHoles
from metku.sections.steel.ISection import IPE, HEA, HEB

PROPERTY = "B02"
RULE = ("one case is a random fin plate joint (rolled beam, plate, 2-8 bolts per vertical row, one or two vertical rows, bolts and gap, plate centred or not on the beam) followed by random changes of plate dimensions, bolt spacing, numbers and sizes "
        "of bolts, gap, beam profile and position, with the eleven resistances queried in random order and other joints of the same program queried and changed in between; compared with an elastic analysis of the bolt group from the bolt coordinates and with the resistances of EN 1993-1-8 "
        "evaluated from the dimensions. Non-trivial: distinct (bolt rows, number of bolts, governing check, LTB relevant, kind of change).")
MONITORS = ["geometry", "bolt shear", "plate bearing", "plate gross shear", "plate net shear", "plate block tearing", "plate bending", "plate lateral-torsional buckling", "web bearing", "web gross shear", "web net shear", "web block tearing", "positions", "independence"]

FUB = {4.6: 400, 4.8: 400, 5.6: 500, 5.8: 500, 6.8: 600, 8.8: 800, 10.9: 1000}
AS = {12: 84.3, 16: 157.0, 20: 245.0, 24: 353.0, 30: 561.0}
FYU = {"S235": (235.0, 360.0), "S275": (275.0, 430.0), "S355": (355.0, 510.0)}
PRO = {"IPE": ([200, 220, 240, 270, 300, 330, 360, 400, 450, 500], IPE), "HEA": ([200, 240, 280, 300, 340, 400], HEA), "HEB": ([200, 240, 300, 360], HEB)}
R3 = math.sqrt(3)


def hole(d):
    return d + (1 if d < 16 else 2 if d < 27 else 3)


class Spec:
    pass


def rbeam(r):
    k = r.choice(list(PRO))
    return PRO[k][1](r.choice(PRO[k][0]), fy=r.choice([235, 275, 355]))


def plausible(s):
    d0 = hole(s.d)
    e1 = s.e1()
    return (e1 > 0.8 * d0 and s.hp - (s.n1 - 1) * s.p1 - e1 > 0.8 * d0 and s.e2() > 0.8 * d0 and s.x0 - s.gh > 0.8 * d0 and s.p1 > 1.5 * d0 and (s.n2 == 1 or s.p2 > 1.5 * d0)
            and s.hp < s.beam.h and s.hp > s.n1 * d0 and abs(s.pos) + 0.5 * s.hp <= 0.5 * s.beam.h)


def setup(s):
    s.e1 = lambda: 0.5 * s.hp - 0.5 * (s.n1 - 1) * s.p1 if s.sym else s.hp - s.y0 - (s.n1 - 1) * s.p1
    s.e2 = lambda: s.bp - s.x0 - (s.n2 - 1) * s.p2
    s.z = lambda: s.x0 + 0.5 * (s.n2 - 1) * s.p2


def build(r):
    for _ in range(200):
        s = Spec()
        s.beam = rbeam(r)
        s.d, s.cls = r.choice(list(AS)), r.choice(list(FUB))
        d0 = hole(s.d)
        s.n1, s.n2 = r.choice([2, 2, 3, 3, 4, 5, 6, 8]), r.choice([1, 1, 2])
        s.p1 = r.uniform(2.0, 4.5) * d0
        s.p2 = r.uniform(2.2, 4.5) * d0 if s.n2 == 2 or r.random() < 0.4 else 0.0
        s.gh = r.choice([0.0, 5.0, 10.0, 15.0])
        s.x0 = s.gh + r.uniform(1.1, 4.0) * d0
        s.bp = s.x0 + (s.n2 - 1) * s.p2 + r.uniform(1.1, 3.0) * d0
        s.hp = (s.n1 - 1) * s.p1 + 2 * r.uniform(1.1, 2.5) * d0
        s.y0 = r.uniform(1.1, 2.5) * d0
        s.tp = float(r.choice([5, 6, 8, 10, 12, 15, 20]))
        s.mat = r.choice(list(FYU))
        s.sym, s.pos = True, 0.0
        setup(s)
        if r.random() < 0.3:
            s.pos = r.uniform(-0.3, 0.3) * s.beam.h
        if plausible(s):
            break
    else:
        raise vm.CaseSkip()
    plate = RectPlateWithHoles(s.bp, s.hp, s.tp, 13, [s.x0, s.y0], s.p2, s.p1, s.n1, s.n2, s.mat)
    if s.d == 20 and s.cls == 8.8 and r.random() < 0.7:
        J = FinPlateJoint(s.beam, plate, gh=s.gh)
    else:
        J = FinPlateJoint(s.beam, plate, Bolt(s.d, s.cls), s.gh)
    J.plate_pos_y = s.pos
    return s, J


def change(r, s, J):
    k = r.choice(["hp", "bp", "tp", "p1", "p2", "n1", "n2", "size", "class", "gh", "beam", "pos", "sym", "x0", "fy"])
    t = Spec()
    t.__dict__.update(s.__dict__)
    setup(t)
    d0 = hole(s.d)
    if k == "hp":
        t.hp = s.hp * r.uniform(0.8, 1.3)
    elif k == "bp":
        t.bp = s.bp * r.uniform(0.8, 1.3)
    elif k == "tp":
        t.tp = float(r.choice([5, 6, 8, 10, 12, 15, 20]))
    elif k == "p1":
        t.p1 = r.uniform(2.0, 4.5) * d0
    elif k == "p2":
        t.p2 = r.uniform(2.2, 4.5) * d0
    elif k == "n1":
        t.n1 = r.choice([2, 3, 4, 5, 6])
    elif k == "n2":
        t.n2 = 3 - s.n2
    elif k in ("size", "class"):
        if k == "size":
            t.d = r.choice(list(AS))
        else:
            t.cls = r.choice(list(FUB))
    elif k == "gh":
        t.gh = r.choice([0.0, 5.0, 10.0, 15.0])
    elif k == "beam":
        t.beam = rbeam(r)
    elif k == "pos":
        t.pos = r.uniform(-0.3, 0.3) * s.beam.h
    elif k == "sym":
        t.sym = not s.sym
        t.y0 = r.uniform(1.1, 2.5) * d0
    elif k == "x0":
        t.x0 = s.gh + r.uniform(1.1, 4.0) * d0
    elif k == "fy":
        t.fy = r.choice(list(FYU))
    if k == "fy":
        s.beam.material = t.fy
        return k
    if not plausible(t):
        return None
    if k == "hp":
        J.hp = t.hp
    elif k == "bp":
        J.bp = t.bp
    elif k == "tp":
        J.tp = t.tp
    elif k == "p1":
        J.p1 = t.p1
    elif k == "p2":
        J.p2 = t.p2
    elif k == "n1":
        J.plate.n1 = t.n1
    elif k == "n2":
        J.plate.n2 = t.n2
    elif k == "size":
        J.bolt.size = t.d
    elif k == "class":
        J.bolt = Bolt(t.d, t.cls)
    elif k == "gh":
        J.gh = t.gh
    elif k == "beam":
        J.beam = t.beam
    elif k == "pos":
        J.plate_pos_y = t.pos
    elif k == "sym":
        J.vertical_symmetry = t.sym
        if not t.sym:
            J.plate.x0[1] = t.y0
    elif k == "x0":
        J.plate.x0[0] = t.x0
    for a in ("hp", "bp", "tp", "p1", "p2", "n1", "n2", "d", "cls", "gh", "beam", "pos", "sym", "y0", "x0"):
        setattr(s, a, getattr(t, a))
    return k


def group(s):
    """ components of the force in the most stressed bolt for unit shear force at the support, elastic analysis """
    n = s.n1 * s.n2
    ys = [(i - 0.5 * (s.n1 - 1)) * s.p1 for i in range(s.n1)]
    xs = [(j - 0.5 * (s.n2 - 1)) * s.p2 for j in range(s.n2)]
    Ip = sum(x * x + y * y for x in xs for y in ys)
    z = s.z()
    v = [(1 / n + z * x / Ip, z * y / Ip) for x in xs for y in ys]
    return max(v, key=lambda a: a[0] ** 2 + a[1] ** 2), v


def fb(s, fu, t, e_load, e_perp, p_perp):
    d0 = hole(s.d)
    k1 = min(2.8 * e_perp / d0 - 1.7, 1.4 * p_perp / d0 - 1.7, 2.5)
    return k1 * min(e_load / 3 / d0, FUB[s.cls] / fu, 1.0) * fu * s.d * t / 1.25


def bearing(s, fu, t, e2):
    p2 = s.p2 if s.n2 > 1 else 1e5
    e1 = s.e1()
    fv, fh = fb(s, fu, t, e1, e2, p2), fb(s, fu, t, e2, e1, s.p1)
    _, v = group(s)
    return 1 / max(math.hypot(a / fv, b / fh) for a, b in v)


def chi_d(lam):
    if lam <= 0.2:
        return 1.0
    phi = 0.5 * (1 + 0.76 * (lam - 0.2) + lam * lam)
    return min(1.0, 1 / (phi + math.sqrt(phi * phi - lam * lam)))


def expected(s):
    fy, fu = FYU[s.mat]
    bfy, bfu = s.beam.fy, s.beam.fu
    d0, e1, e2, z = hole(s.d), s.e1(), s.e2(), s.z()
    e2b = s.x0 - s.gh
    e1b = 0.5 * s.beam.h - (s.pos + 0.5 * s.hp - e1)
    (a, b), _ = group(s)
    av = 0.5 if s.cls in (4.8, 5.8, 6.8, 10.9) else 0.6
    o = {}
    o["bolt shear"] = av * FUB[s.cls] * AS[s.d] / 1.25 / math.hypot(a, b)
    o["plate bearing"] = bearing(s, fu, s.tp, e2)
    o["plate gross shear"] = s.hp * s.tp * fy / 1.27 / R3
    o["plate net shear"] = s.tp * (s.hp - s.n1 * d0) * fu / R3 / 1.25
    hb = (s.n2 - 1) * s.p2 - (s.n2 - 0.5) * d0
    o["plate block tearing"] = 0.5 * fu * s.tp * (e2 + hb) / 1.25 + fy / R3 * s.tp * (s.hp - e1 - (s.n1 - 0.5) * d0)
    W = s.tp * s.hp ** 2 / 6
    o["plate bending"] = W * fy / z
    lam = 2.8 / (math.pi * math.sqrt(210e3 / fy)) * math.sqrt(z * s.hp / 1.5 / s.tp ** 2)
    o["plate lateral-torsional buckling"] = W * fy / z * (1.0 if z < s.tp / 0.15 else min(1.0, chi_d(lam) / 0.6))
    o["web bearing"] = bearing(s, bfu, s.beam.tw, e2b)
    A = s.beam.A - 2 * s.beam.b * s.beam.tf + (s.beam.tw + 2 * s.beam.r) * s.beam.tf
    Av = max(A, s.beam.hw * s.beam.tw)
    o["web gross shear"] = Av * bfy / R3
    o["web net shear"] = (Av - s.n1 * d0 * s.beam.tw) * bfu / R3 / 1.25
    o["web block tearing"] = s.beam.tw * (0.5 * bfu * (e2b + hb) / 1.25 + bfy / R3 * (e1b + (s.n1 - 1) * s.p1 - (s.n1 - 0.5) * d0))
    geo = [s.hp, s.bp, s.tp, e1, e2, e1b, e2b, z, d0, s.p1]
    return o, geo


FN = {"bolt shear": "bolt_shear", "plate bearing": "fin_plate_bearing", "plate gross shear": "fin_plate_shear_gross", "plate net shear": "fin_plate_shear_net", "plate block tearing": "fin_plate_block_tearing",
      "plate bending": "fin_plate_bending", "plate lateral-torsional buckling": "fin_plate_ltb", "web bearing": "beam_web_bearing", "web gross shear": "beam_web_shear_gross", "web net shear": "beam_web_shear_net",
      "web block tearing": "beam_web_block_tearing"}


def query(r, s, J, mon, full):
    o, geo = expected(s)
    ks = list(FN)
    r.shuffle(ks)
    for k in ks if full else ks[:r.randint(1, 4)]:
        mon.close(k, getattr(J, FN[k])(), o[k], 1e-7, 1e-3, k)
    if full:
        mon.close("geometry", [J.hp, J.bp, J.tp, J.e1, J.e2, J.e1b, J.e2b, J.z, J.d0, J.p1], geo, 1e-9, 1e-9, "geometry")
        b, f = J.bolt, Bolt(s.d, s.cls)
        at = ("d", "d0", "A", "As", "head_t", "head_d", "nut_t", "nut_e", "washer_t", "washer_d", "fyb", "fub", "dw")
        mon.close("geometry", [getattr(b, k) for k in at], [getattr(f, k) for k in at], 1e-9, 0, "bolt of the joint and a new bolt of that size: %r" % (at,))
        e1, e2, e2b, d0 = geo[3], geo[4], geo[6], geo[8]
        mar = [e1 / d0 - 1.2, e2 / d0 - 1.2, e2b / d0 - 1.2, s.p1 / d0 - 2.2] + ([s.p2 / d0 - 2.4] if s.n2 > 1 else [])
        if min(abs(m) for m in mar) > 1e-9:
            mon.ok("positions", bool(J.check_bolt_position()) == (min(mar) > 0), "bolt position rules with margins %r: %r" % (mar, J.check_bolt_position()))
    return o


def w_finplate(r, mon):
    js = [build(r) for _ in range(r.choice([1, 2, 2, 3]))]
    mon.case([{k: v for k, v in s.__dict__.items() if not callable(v) and k != "beam"} | {"beam": repr(s.beam)} for s, _ in js])
    last = ""
    for s, J in js:
        if r.random() < 0.6:
            query(r, s, J, mon, r.random() < 0.5)
    for _ in range(r.randint(1, 8)):
        s, J = r.choice(js)
        c = change(r, s, J)
        if c:
            last = c
            mon.note(c)
            if r.random() < 0.6:
                query(r, s, J, mon, r.random() < 0.4)
    for s, J in js:
        o = query(r, s, J, mon, True)
        if len(js) > 1:
            mon.close("independence", [J.bolt.d, J.plate.n1, J.e1], [s.d, s.n1, s.e1()], 1e-9, 1e-9, "another joint changed this one")
        mon.nontrivial((s.n1, s.n2, min(o, key=o.get), s.z() < s.tp / 0.15, last))


WORKLOADS = {"finplate": (w_finplate, 12000, 150000)}

if __name__ == "__main__":
    vm.main(globals())
