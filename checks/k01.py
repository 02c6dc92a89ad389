"""K01: fabrication costs of plates, joints and trusses."""
import os, sys, math, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vm
import numpy as np
import trussgen as T
import b01, b02
from metku.cost import workshop as W
from metku.cost import cost_data as D
from metku.structures.steel.plates import RectPlate, RectPlateWithHoles
from metku.sections.steel.RHS import SHS, RHS

PROPERTY = "K01"
RULE = ("one case is a workshop, or several, asked in random order for the costs of random operations (blasting, plasma and flame cutting, painting with each paint system, fillet and butt assembly welding, sawing, welding of new sizes); a plate with dimensions, weld, holes and grade changed repeatedly; "
        "a bolted end plate or fin plate joint changed repeatedly; or a random roof truss whose sections, node positions and grades are changed; every cost is compared with the cost formulas of Haapio evaluated from scratch for the current state, and other workshops and trusses of the program must not take part. "
        "Non-trivial: distinct (operation or change, range of thickness, number of parts).")
MONITORS = ["annual cost", "blasting", "cutting", "painting", "welding", "sawing", "order independence", "monotone", "plate", "end plate joint", "fin plate joint", "bolts", "truss members", "truss welds", "truss total", "distribution", "workshops independent"]

MIN = 252 * 8 * 60
WAGE = 19.76 * 1.7 / 60


def annual(P, I, n):
    # capital recovery from the present value of n end-of-year payments
    return P / sum((1 + I) ** -k for k in range(1, n + 1))


def rate(area, workers, invest, maint, years=20):
    return workers * WAGE + (annual(invest, 0.05, years) + maint + annual(area * (1000 - 12.0), 0.05, 50) + area * 8 * 6.385 * 1.81) / MIN


def centre(TN, TP, c, cp, CC, u=1.0):
    return (TN + TP) * c / u + TP * cp + CC


EN = 0.1 / 60


def blasting(L):
    return centre(0, L / 3000, rate(400, 1, 200e3, 1000), 0.042 * 0.75 + 40 * EN, 0)


def cutting(t, L):
    if t <= 30:
        v = 8.9212 * t * t - 486.87 * t + 8155.8
        cp = 0.071 * 0.3 + 40 / 480 + 72 * EN
    else:
        v = 658.67 - 4.1939 * t
        cp = 0.0063 * 18.4 + (0.025 + 1e-5 * t * t + 0.001 * t + 0.0224) * 4.18
    return centre(3, L / v, rate(200, 2, 280e3, 1000), cp, 0)


PAINT = {"alkyd": [(0.48, 80, 2.8), (0.45, 40, 3.6), (0.45, 40, 3.6)], "epoxy": [(0.5, 60, 4.2), (0.5, 60, 4.2), (0.48, 40, 4.9)], "polyurethane": [(0.5, 60, 4.2), (0.5, 60, 5.9)],
         "acryl": [(0.48, 60, 6.4), (0.48, 60, 6.4), (0.4, 40, 6.4)]}


def painting(A, paint="alkyd"):
    # thickness of wet film, losses included
    wet = [((d * 1e-3) * 1.3 + 0.01) / s for s, d, p in PAINT[paint]]
    vol = [w * A for w in wet]
    return centre(0, sum(vol) / 900000, rate(75, 1, 0, 0), 0, sum(v * 1e-6 * p for v, (s, d, p) in zip(vol, PAINT[paint])))


def welding(a, L, typ="fillet"):
    m = L * 1e-3
    t = m * (0.4988 * a * a - 0.0005 * a + 0.0021) if typ == "fillet" else m * (0.249 * a * a + 0.0096 * a - 0.0506)
    kg = 7850e-9 * L * a * a * (1 if typ == "fillet" else 0.5)
    return centre(0, t + 0.5 + 0.5 + 0.27 + 3 * 0.09 + 0.05, rate(75, 1, 5000, 0, 10), 6 * EN, kg * (1.66 + 0.4 * 3.79))


def sawing(L, bevels, ends):
    tp = cc = 0
    for t, h, Ah, A in ends:
        k = next((i for i, q in enumerate((5, 10, 15, 20, 25, 30, 35)) if t <= q), 7)
        S = (120, 100, 90, 80, 70, 60, 50, 40)[k]
        F = (0.4, 0.45, 0.5, 0.55, 0.6, 0.65, 0.7, 0.8)[k]
        p = h / 2.0 / S + Ah / 1800
        tp += p
        cc += A / (1800 * 1350 * F) / p * 170
    return centre(2 + 2 * 1.25 + bevels + L / 20e3, tp, rate(525, 1, 310e3, 1000), 10 * EN, cc)


GRADES = ["S235", "S275", "S355", "S420", "S460M", "S500", "S700"]


def ask(r, w):
    """a random operation: name, call, expected, band"""
    k = r.choice(["blasting", "cutting", "painting", "welding", "sawing"])
    c = w.cost_centres
    L = 10 ** r.uniform(1, 4.3)
    if k == "blasting":
        return k, lambda: c["blasting"].cost(L), blasting(L), int(math.log10(L))
    if k == "cutting":
        t = r.choice([r.uniform(3, 30), r.uniform(30, 100), 30.0, r.choice([4, 5, 8, 10, 20, 25, 30, 40])])
        return k, lambda: c["cutting"].cost(t, L), cutting(t, L), ("plasma" if t <= 30 else "flame")
    if k == "painting":
        A = 10 ** r.uniform(3, 8)
        return k, lambda: c["painting"].cost(A), painting(A, c["painting"].paint), c["painting"].paint
    if k == "welding":
        a, typ = r.uniform(3, 12), r.choice(["fillet", "butt"])
        if typ == "fillet" and r.random() < 0.5:
            return k, lambda: c["assembly_welding"].cost(a, L), welding(a, L), "default"
        return k, lambda: c["assembly_welding"].cost(a, L, typ), welding(a, L, typ), typ
    n = r.choice([1, 2, 2])
    ends = [(r.uniform(2, 45), r.uniform(20, 400), r.uniform(200, 8000), r.uniform(300, 15000)) for _ in range(n)]
    g, b = r.choice(GRADES), r.choice([0, 1, 2])
    z = list(zip(*ends))
    return k, lambda: c["sawing"].cost(L, b, g, list(z[1]), list(z[0]), list(z[2]), list(z[3])), sawing(L, b, ends), (n, b, g)


def w_centres(r, mon):
    P, I, n = 10 ** r.uniform(2, 7), r.uniform(0.005, 0.15), r.randint(1, 60)
    mon.close("annual cost", W.annual_cost(P, I, n), annual(P, I, n), 1e-9, 0, "annual cost %g %g %d" % (P, I, n))
    ws = [W.Workshop() for _ in range(r.choice([1, 2, 3]))]
    for w in ws:
        if r.random() < 0.7:
            w.cost_centres["painting"].paint = r.choice(list(PAINT))
    mon.case(dict(n=len(ws)))
    price = [None] * len(ws)
    if r.random() < 0.5:
        i = r.randrange(len(ws))
        price[i] = r.uniform(500, 3000)
        ws[i].steel_price["plates"] = price[i]
    ops = []
    for _ in range(r.randint(3, 12)):
        w = r.choice(ws)
        k, f, want, band = ask(r, w)
        got = f()
        mon.close(k, got, want, 1e-9, 0, "%s %s" % (k, band))
        mon.ok("monotone", got >= 0, "%s cost %r" % (k, got))
        ops.append((k, f, got))
        mon.nontrivial((k, band))
        if r.random() < 0.3:
            k, f, old = r.choice(ops)
            mon.close("order independence", f(), old, 1e-12, 0, "%s asked again" % k)
    c = r.choice(ws).cost_centres
    t, L, a = r.uniform(3, 29), r.uniform(10, 5000), r.uniform(3, 10)
    q = r.uniform(1.01, 2)
    mon.ok("monotone", c["cutting"].cost(t, L * q) > c["cutting"].cost(t, L) and c["assembly_welding"].cost(a * q, L) > c["assembly_welding"].cost(a, L)
           and c["assembly_welding"].cost(a, L * q) > c["assembly_welding"].cost(a, L) and c["blasting"].cost(q * L) > c["blasting"].cost(L) and c["painting"].cost(q * L) > c["painting"].cost(L),
           "costs grow with the amount of work t=%g L=%g a=%g" % (t, L, a))
    for w, p in zip(ws, price):
        mon.close("workshops independent", w.steel_price["plates"], p or 1169.0, 0, 0, "steel price of a workshop")
    mon.close("workshops independent", W.Workshop().steel_price["plates"], 1169.0, 0, 0, "steel price of a new workshop")


def addon(t):
    for lim, v in ((5, 140), (6, 140), (7, 82), (8, 35), (10, 23), (12, 12), (20, 0), (50, 12), (60, 47), (80, 58)):
        if t < lim:
            return v
    return 140


def plate_cost(b, h, t, grade, weld, holes, price):
    o = dict(material=b * h * t * 7850e-9 * (price + (0 if grade == "S235" else 35) + addon(t)) * 1e-3, cutting=cutting(t, 2 * (b + h)),
             painting=painting(2 * b * h + 2 * t * (b + h)), blasting=blasting(max(b, h)))
    if weld > 0:
        o["welding"] = welding(weld, 2 * (b + h))
    if holes:
        o["holes"] = cutting(t, math.pi * sum(holes))
    return o


def w_plate(r, mon):
    from metku.materials.steel_data import Steel
    ws = [W.Workshop(), W.Workshop({"plates": 900.0})]
    s = dict(b=r.uniform(50, 600), h=r.uniform(50, 800), t=r.choice([4, 5, 6, 8, 10, 12, 15, 20, 25, 30, 40, 55, 70, r.uniform(4, 85)]), grade=r.choice(["S235", "S355", "S420"]), weld=0, holes=[])
    rows = None
    if r.random() < 0.4:
        rows = dict(d0=r.choice([13, 18, 22, 26]), n1=r.randint(1, 5), n2=r.choice([1, 2]))
        p = RectPlateWithHoles(s["b"], s["h"], s["t"], rows["d0"], [30, 30], 50, 50, rows["n1"], rows["n2"], s["grade"])
    else:
        p = RectPlate(s["b"], s["h"], s["t"], s["grade"])
    mon.case(s)
    last = ""
    for _ in range(r.randint(2, 7)):
        w = r.choice(ws)
        price = r.choice([None, 1500.0])
        if rows:
            s["holes"] = [rows["d0"]] * (rows["n1"] * rows["n2"])
        o = plate_cost(**s, price=price or 1169.0)
        got = p.cost(w, price) if price else p.cost(w)
        mon.close("plate", got, sum(o.values()), 1e-9, 0, "plate %r" % s)
        for k, v in o.items():
            mon.close("distribution", p._cost[k], v, 1e-9, 0, "%s of the plate" % k)
        mon.close("distribution", sum(p._cost.values()), got, 1e-9, 0, "sum of the cost distribution")
        mon.close("plate", [p.weight(), p.area(), p.volume(), p.circumference(), p.paint_area()],
                  [7850e-9 * s["b"] * s["h"] * s["t"], s["b"] * s["h"], s["b"] * s["h"] * s["t"], 2 * (s["b"] + s["h"]), 2 * s["b"] * s["h"] + 2 * s["t"] * (s["b"] + s["h"])], 1e-9, 0, "plate quantities")
        mon.nontrivial((last, addon(s["t"]), s["weld"] > 0, len(s["holes"]), s["t"] > 30))
        last = r.choice(["b", "h", "t", "grade", "weld", "weld", "holes"])
        if last in "bh":
            s[last] *= r.uniform(0.6, 1.5)
            setattr(p, last, s[last])
        elif last == "t":
            s["t"] = p.t = r.choice([4, 6, 10, 20, 30, 40, r.uniform(4, 85)])
        elif last == "grade":
            s["grade"] = r.choice(["S235", "S275", "S355"])
            p.material = Steel(s["grade"])
        elif last == "weld":
            s["weld"] = p.weld_size = r.choice([0, 0, r.uniform(3, 10)])
        elif rows:
            k = r.choice(["n1", "n2", "d0"])
            rows[k] = {"n1": r.randint(1, 5), "n2": r.choice([1, 2]), "d0": r.choice([13, 18, 22, 26])}[k]
            setattr(p, k, rows[k])
        else:
            s["holes"] = [r.choice([13, 18, 22, 26]) for _ in range(r.choice([0, 0, 2, 4, 6]))]
            p.holes = list(s["holes"])


NUT = {12: 0.10, 16: 0.27, 20: 0.54, 24: 0.98, 30: 2.13, 36: 4.45}
WASHER = {12: 0.30, 16: 0.46, 20: 0.65, 24: 0.82, 30: 1.41, 36: 1.76}


def bolt_price(b):
    L, typ = b01.bolt_length(b.d, b._length)
    if L is None:
        raise vm.CaseSkip()
    return (D.bolt_unit_cost_full_thread if typ == "Full thread" else D.bolt_unit_cost_part_thread)[L][b.d]


def end_plate(s, J, price):
    p = J.end_plate
    o = {"plate": sum(plate_cost(s.bp, s.beam.h + s.etop + s.ebottom, s.tp, p.material.name, p.weld_size, list(p.holes), price).values())}
    n = len(s.z)
    o["bolts"] = 2 * sum(bolt_price(q.bolt) + NUT[s.d] + 2 * WASHER[s.d] for q in J.bolt_rows)
    o["holes"] = cutting(s.tp, 2 * n * b01.hole(s.d) * math.pi)
    b = s.beam
    fl = 2 * (b.b + b.tf) - 2 * b.r - b.tw + math.pi * b.r
    o["welding"] = welding(s.wf, 2 * fl) + welding(s.ww, 2 * b.hw)
    for k, q in J.stiffeners.items():
        if q is not None:
            o[k] = sum(plate_cost(q.b, q.h, q.t, q.material.name, q.weld_size, list(q.holes), price).values())
    return o


def w_endplate(r, mon):
    s, J = b01.build(r)
    ws = [W.Workshop(), W.Workshop({"plates": r.uniform(700, 2000)})]
    J.workshop = ws[0]
    cur = ws[0]
    mon.case(dict(d=s.d, z=len(s.z), tp=s.tp))
    last = ""
    for i in range(r.randint(1, 5)):
        if i:
            last = b01.change(r, s, J)
            if not last:
                continue
            if r.random() < 0.3:
                J.bending_resistance()
        o = end_plate(s, J, cur.steel_price["plates"])
        w = None
        if r.random() < 0.3:
            w = cur = r.choice(ws)
            o = end_plate(s, J, cur.steel_price["plates"])
        got = J.cost(w) if w else J.cost()
        mon.close("end plate joint", got, sum(o.values()), 1e-9, 0, "cost of the end plate joint after %s" % last)
        mon.close("bolts", J._cost["bolts"], o["bolts"], 1e-9, 0, "bolts of the end plate joint")
        for k, v in o.items():
            mon.close("distribution", J._cost[k], v, 1e-9, 0, "%s of the end plate joint" % k)
        mon.nontrivial((last, s.d, len(s.z), sum(q is not None for q in J.stiffeners.values())))


def w_finplate(r, mon):
    s, J = b02.build(r)
    ws = [W.Workshop(), W.Workshop({"plates": r.uniform(700, 2000)})]
    J.workshop = cur = ws[0]
    mon.case(dict(d=s.d, n1=s.n1, n2=s.n2))
    last = ""
    for i in range(r.randint(1, 5)):
        if i:
            last = b02.change(r, s, J)
            if not last:
                continue
        if r.random() < 0.3:
            J.weld_size = r.uniform(3, 8)
        w = None
        if r.random() < 0.3:
            w = cur = r.choice(ws)
        got = J.cost(w) if w else J.cost()
        n = s.n1 * s.n2
        o = {"plate": sum(plate_cost(s.bp, s.hp, s.tp, s.mat, 0, [b02.hole(s.d)] * n, cur.steel_price["plates"]).values()), "welding": welding(J.weld_size, 2 * s.hp),
             "beam holes": cutting(s.beam.tw, n * math.pi * b02.hole(s.d)), "bolts": n * (bolt_price(J.bolt) + NUT[s.d] + WASHER[s.d])}
        mon.close("fin plate joint", got, sum(o.values()), 1e-9, 0, "cost of the fin plate joint after %s" % last)
        mon.close("bolts", J._cost["bolts"], o["bolts"], 1e-9, 0, "bolts of the fin plate joint")
        for k, v in o.items():
            mon.close("distribution", J._cost[k], v, 1e-9, 0, "%s of the fin plate joint" % k)
        mon.nontrivial((last, s.d, n))


BETA = {"S235": 0.8, "S275": 0.85, "S355": 0.9, "S420": 1.0}


def truss_cost(t):
    P = lambda n: np.array(n.coords, float)[:2]
    tot = dict(material=0.0, blasting=0.0, painting=0.0, welding=0.0, sawing=0.0)
    mem = {}
    for m in t.members.values():
        c = m.cross_section
        L = float(np.hypot(*(P(m.nodes[1]) - P(m.nodes[0]))))
        o = dict(material=c.A * 7850e-9 * L, blasting=blasting(L), painting=painting(L * c.Au))
        if isinstance(m, T.TrussBrace):
            o["sawing"] = sawing(L, 0, [(c.T, c.B, 2 * c.H * c.T, c.A)] * 2)
        mem[m.mem_id] = o
        for k, v in o.items():
            tot[k] += v
    welds = {}
    for k, j in t.joints.items():
        n0 = j.chords[0].nodes
        ch = P(n0[1]) - P(n0[0])
        s = 0.0
        for b in j.braces:
            v = P(b.nodes[1]) - P(b.nodes[0])
            sin = abs(ch[0] * v[1] - ch[1] * v[0]) / np.hypot(*ch) / np.hypot(*v)
            c = b.cross_section
            a = 2 * BETA[b.material.name] / math.sqrt(2) * 1.25 * b.material.fy / b.material.fu * c.T
            s += welding(a, 2 * (c.H / sin + c.B) - 8 * c.R + 2 * math.pi * c.R)
        welds[k] = s
        tot["welding"] += s
    return mem, welds, tot


def w_truss(r, mon):
    ts = []
    for _ in range(r.choice([1, 1, 2])):
        P = T.params(r)
        if P["top"] == "N" and P["dx"] == 0 and P["ndiv"] < 3:
            P["ndiv"] = 3
        ts.append(T.build(P))
    mon.case(dict(n=len(ts)))
    last = "new"
    for _ in range(r.randint(1, 4)):
        t = r.choice(ts)
        mem, welds, tot = truss_cost(t)
        if r.random() < 0.3:
            w = W.Workshop()
            t.workshop = w
            last = "workshop"
        got = t.cost()
        got = got if got is not None else sum(t.costs.values())
        for m in t.members.values():
            for k, v in mem[m.mem_id].items():
                mon.close("truss members", m.costs[k], v, 1e-8, 0, "%s of %r after %s" % (k, m, last))
        for k, j in t.joints.items():
            mon.close("truss welds", j.costs["welding"], welds[k], 1e-7, 0, "welds of joint %r after %s" % (j, last))
        mon.close("truss total", got, sum(tot.values()), 1e-8, 0, "total cost after %s" % last)
        mon.close("distribution", [t.costs[k] for k in tot], list(tot.values()), 1e-8, 1e-12, "cost distribution of the truss after %s" % last)
        mon.nontrivial((last, len(t.members)))
        last = r.choice(["chord", "brace", "height", "grade", "other"])
        if last == "chord":
            m = r.choice(list(t.top_chord) + list(t.bottom_chord))
            m.cross_section = SHS(*r.choice(T.CH))
        elif last == "brace":
            for m in r.sample(list(t.braces.values()), r.randint(1, len(t.braces))):
                m.cross_section = SHS(*r.choice(T.BR))
        elif last == "height":
            for n in t.top_nodes:
                n.y += r.uniform(-50, 300)
        elif last == "grade":
            m = r.choice(list(t.braces.values()))
            m.material = r.choice(list(BETA))
    for t in ts:
        mon.ok("workshops independent", all(t.workshop is not q.workshop for q in ts if q is not t), "trusses built one after the other share a workshop")


WORKLOADS = {"centres": (w_centres, 6000, 60000), "plate": (w_plate, 6000, 60000), "endplate": (w_endplate, 3000, 30000), "finplate": (w_finplate, 3000, 30000), "truss": (w_truss, 600, 6000)}

if __name__ == "__main__":
    vm.main(globals())
