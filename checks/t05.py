"""T05: PortalTruss - columns and truss form the portal that is analysed."""
import os, sys, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vm
sys.path.insert(0, vm.VERIF)
import numpy as np
import matplotlib
matplotlib.use("Agg")
import metku.eurocodes.en1993
from metku.raami.raami_portal_truss import PortalTruss
from metku.sections.steel.RHS import SHS
from metku.sections.steel.ISection import HEA, HEB

PROPERTY = "T05"
RULE = ("random portal trusses of PortalTruss: span, height, truss heights, web type and divisions, bottom chord free of or connected to the columns, fixed or pinned bases, column profiles and elements; uniform "
        "and zoned roof loads and wind on the columns in 1-3 load cases given in any order; analysed, then profiles of columns, chords and braces changed and analysed again (nodes moved or model built again). "
        "Judged by equilibrium of the part left of random vertical cuts, hinges, sway of cantilever columns, superposition and comparison with portals built from scratch. Non-trivial: distinct (topology, divisions, bases, loads, edits).")
MONITORS = ["geometry", "weight", "equilibrium", "member forces", "sections", "hinges", "sway", "supports", "symmetry", "re-analysis", "linearity"]
# profiles of the same height: the first joint of the chord is placed for the height of the first column
COLS = [[lambda: SHS(250, 8), lambda: SHS(250, 10), lambda: SHS(250, 12.5), lambda: HEA(260)], [lambda: SHS(300, 10), lambda: SHS(300, 12.5), lambda: HEB(300)]]
CH = [(120, 5), (140, 5), (150, 6), (160, 6), (160, 8), (180, 8), (200, 8)]
BR = [(60, 3), (70, 4), (80, 4), (90, 5), (100, 5)]


class S:
    pass


def params(r):
    P = S()
    U = r.uniform
    P.L = round(U(12000, 36000))
    P.H = round(U(4000, 12000))
    P.h1 = round(U(0.05, 0.09) * P.L)
    P.h2 = round(P.h1 + U(0.01, 0.06) * P.L)
    P.top, P.nd = r.choice("KN"), r.choice([3, 4, 5])
    P.dx = r.choice([0, 1, 1]) * round(U(0.3, 0.9) * 0.5 * P.L / (P.nd + 1))
    P.up = r.random() < 0.5 or not P.dx
    P.nelc, P.nelb = r.choice([1, 2, 4]), r.choice([1, 1, 2])
    P.nel = [r.choice([2, 4]), r.choice([2, 3])]
    P.base = r.choice(["fixed", "pinned"]) if not P.dx else "fixed"
    P.lcr = [round(U(0.7, 2), 2), 1.0]
    P.cols = r.choice(COLS)
    P.col = r.randrange(len(P.cols))
    P.tc, P.bc, P.br = r.choice(CH), r.choice(CH), r.choice(BR)
    P.brace = {}
    P.loads = []
    lids = r.sample([0, 1, 2, 7], r.randint(1, 3))
    for lid in lids:
        k = r.choice(["truss", "both", "both", "column", "sym"])
        if k in ("truss", "both", "sym"):
            if r.random() < 0.7 or k == "sym":
                P.loads.append(dict(part="truss", q=U(-30, 10), lid=lid))
            else:
                P.loads.append(dict(part="zones", q=[U(-30, 10), U(-30, 10)], z=[P.L / 2], lid=lid))
        if k in ("both", "column"):
            for m in r.choice([["left"], ["right"], ["left", "right"]]):
                P.loads.append(dict(part="column", q=U(-10, 10), m=m, lid=lid))
        if k == "sym":
            q = U(-10, 10)
            P.loads += [dict(part="column", q=q, m="left", lid=lid), dict(part="column", q=-q, m="right", lid=lid)]
    r.shuffle(P.loads)
    return P


def zones(l, P):
    """piecewise roof load: [(q, x0, x1)]"""
    if l["part"] == "truss":
        return [(l["q"], 0.0, P.L)]
    x = [0.0] + l["z"] + [P.L]
    return list(zip(l["q"], x, x[1:]))


def build(P):
    p = PortalTruss(span=P.L, height_eaves=P.H)
    p.create_truss(topology=P.top, ndiv=P.nd, h2=P.h2, h1=P.h1, dx=P.dx, nel_chord=P.nelc, nel_brace=P.nelb, first_diagonal_up=P.up)
    t = p.truss
    t.top_chord_profile = SHS(*P.tc)
    t.bottom_chord_profile = SHS(*P.bc)
    for b in t.braces.values():
        b.cross_section = SHS(*P.br)
    p.create_columns(profile=P.cols[P.col](), hinges=[False, False], nel=list(P.nel), lcr=list(P.lcr))
    p.create_truss_to_column_joints(y_joint_node=True)
    p.generate_supports(P.base)
    p.symmetry()
    bs = braces(p)
    for i, s in P.brace.items():
        bs[i].cross_section = SHS(*s)
        bs[len(bs) - 1 - i].cross_section = SHS(*s)
    for l in P.loads:
        if l["part"] == "column":
            p.generate_uniform_load("column", q=l["q"], member=l["m"], load_id=l["lid"], ltype="wind")
        elif l["part"] == "truss":
            p.generate_uniform_load("truss", q=l["q"], load_id=l["lid"], ltype="snow")
        else:
            p.generate_piecewise_uniform_load(list(l["q"]), list(l["z"]), load_id=l["lid"], ltype="snow")
    p.generate_fem(truss_eccentricity=True, column_eccentricity=True)
    return p


def braces(p):
    return sorted(p.truss.braces.values(), key=lambda b: (round(b.nodes[0].x + b.nodes[1].x, 3), round(min(b.nodes[0].x, b.nodes[1].x), 3) * (1 if b.nodes[0].x + b.nodes[1].x < p.L else -1)))


def xy(n):
    return np.array([n.x, n.y], float)


def cells(p):
    out = []
    for c in p.columns:
        out += list(getattr(c, "members", None) or [c])
    return out


def columns(p, k):
    c = p.columns[k]
    return list(getattr(c, "members", None) or [c])


def cuts(r, mon, p, P, lid, tag):
    """equilibrium of the part left of vertical cuts"""
    els = p.fem.elements
    base = [p.nodes[0].fem_node, p.nodes[1].fem_node]
    scale = sum(abs(l["q"]) * P.H if l["part"] == "column" else sum(abs(q) * (b - a) for q, a, b in zones(l, P)) for l in P.loads if l["lid"] == lid) + 1.0
    ca = math.cos(math.atan2(P.h2 - P.h1, P.L / 2))
    # ends of the loaded part of the chord
    x0 = min(n.x for n in loaded(p))
    x1 = max(n.x for n in loaded(p))
    hc = p.column_joints[0].hc
    mon.ok("geometry", -1e-6 <= x0 <= 0.5 * hc + 31 and abs(x0 + x1 - P.L) < 0.05, tag + "loads act on the roof from %g to %g" % (x0, x1))
    chord = {id(e) for c in p.truss.top_chord for e in c.fem_elements} | {id(e) for e in els if all(any(n is m for m in loaded(p)) for n in e.nodes)}
    for xc in [P.L + 1.0] + [r.uniform(0.02, 0.98) * P.L for _ in range(3)]:
        F = np.zeros(3)

        def add(x, fx, fy, m=0.0):
            F[:] += [fx, fy, m + x[0] * fy - x[1] * fx]
        # forces of the bases
        for b in base:
            if b.x < xc:
                for e, i in els_at(els, b):
                    fx, fy, m = end(e, i, lid)
                    add(xy(b), fx, fy, m)
        xl = x1 if xc > P.L else None
        for e in els:
            xs = [n.x for n in e.nodes]
            if min(xs) < xc <= max(xs) and min(xs) != max(xs):
                i = int(np.argmin(xs))
                fx, fy, m = end(e, i, lid)
                add(xy(e.nodes[i]), -fx, -fy, -m)
                if id(e) in chord:
                    xl = min(xs)
        if xl is None:
            continue
        for l in P.loads:
            if l["lid"] != lid:
                continue
            if l["part"] == "column":
                x = 0.0 if l["m"] == "left" else P.L
                if x < xc:
                    add((x, P.H / 2), l["q"] * P.H, 0)
                continue
            for q, a, b in zones(l, P):
                a, b = max(a, x0), min(b, xl)
                if b > a:
                    add(((a + b) / 2, 0), 0, q * (b - a) / ca)
        mon.close("equilibrium", F[:2], [0, 0], 0, 2e-4 * scale, tag + "part left of x=%.0f, case %s" % (xc, lid))
        mon.close("equilibrium", F[2], 0, 0, 2e-4 * scale * (P.L + P.H), tag + "moments of the part left of x=%.0f, case %s" % (xc, lid))


def loaded(p):
    """nodes of the loaded part of the chord (the stub between the column and the Y joint carries no load)"""
    xc = [] if p.bottom_chord_to_column else [j.fem_nodes["xc"] for j in p.column_joints]
    return [n for c in p.truss.top_chord for e in c.fem_elements for n in e.nodes if not any(n is x for x in xc)]


def els_at(els, n):
    return [(e, i) for e in els for i in (0, 1) if e.nodes[i] is n]


def end(e, i, lid):
    """global forces of the node on end i of the element"""
    f = e.fint[lid]
    s = -1 if i == 0 else 1
    u = xy(e.nodes[1]) - xy(e.nodes[0])
    c, sn = u / np.hypot(*u)
    N, V, M = s * f["fx"][i], -s * f["fz"][i], s * f["my"][i]
    return c * N - sn * V, sn * N + c * V, M


def check_joints(mon, p, P, tag):
    """ends of the chords at the columns"""
    for j in p.column_joints:
        hc, s = j.hc, 1 if j.left else -1
        mon.close("geometry", hc, (p.columns[0].cross_section.h if hasattr(p.columns[0].cross_section, "h") else p.columns[0].cross_section.H), 1e-9, 0, tag + "height of the column")
        n = j.node
        tan = 0 if abs(n.y - P.H) > 1e-6 else (P.h2 - P.h1) / (P.L / 2)
        mon.close("geometry", xy(j.fem_nodes["xc"]), [n.x + s * hc / 2, n.y + tan * hc / 2], 0, 1e-6, tag + "end of the chord at the face of the column %s" % n)
    if not P.dx:
        return
    for k in (0, -1):
        c = p.truss.top_chord[k]
        y = [q for q in c.joints if type(q).__name__ == "TubularYJoint"]
        x = 0 if k == 0 else P.L
        d = p.column_joints[0].hc / 2 + p.column_joints[0].gap
        for q in y:
            v = xy(q.node) - [x, P.H]
            mon.close("geometry", abs(v[0]), d, 0, 0.03 * d, tag + "Y joint beside the column")
            mon.close("geometry", v[1], abs(v[0]) * (P.h2 - P.h1) / (P.L / 2), 0, 1e-6 * d, tag + "Y joint on the axis of the chord")


def check(r, mon, p, P, lids, tag=""):
    t = p.truss
    check_joints(mon, p, P, tag)
    for lid in lids:
        cuts(r, mon, p, P, lid, tag)
        els = p.fem.elements
        fm = max(max(map(abs, e.fint[lid]["my"])) for e in els) + 1.0
        fn = max(max(map(abs, e.fint[lid]["fx"])) for e in els) + 1.0
        for m in list(t.members.values()) + cells(p):
            for k, q, sc in (("N", "fx", fn), ("Vz", "fz", fn), ("My", "my", fm)):
                want = [e.fint[lid][q][0] for e in m.fem_elements] + [m.fem_elements[-1].fint[lid][q][1]]
                mon.close("member forces", m.nodal_forces[lid][k], want, 0, 1e-9 * sc, tag + "%s of %s" % (k, m))
            for e in m.fem_elements:
                mon.close("sections", [e.section.A, e.section.I[0]], [m.cross_section.A, m.cross_section.I[0]], 1e-9, 0, tag + "element of %s" % m)
        # hinges between the chords and the columns, at mirrored places
        at = []
        for j in p.column_joints:
            n = j.fem_nodes["xc"]
            # the element between the face of the column and the chord
            st = [(e, i) for e, i in els_at(els, n) if e is not j.fem_elements]
            if not mon.ok("hinges", len(st) == 1 and min(abs(m) for m in st[0][0].fint[lid]["my"]) < 1e-6 * fm, tag + "chord is hinged to the column: %s" % [e.fint[lid]["my"] for e, i in st]):
                continue
            e, i = st[0]
            m = [abs(e.fint[lid]["my"][k]) < 1e-6 * fm for k in (i, 1 - i)]
            if not P.dx:
                mon.ok("hinges", m[0], tag + "hinge at the face of the column: %s" % e.fint[lid]["my"])
            at.append(m)
        if len(at) == 2:
            mon.ok("hinges", any(a and b for a, b in zip(*at)), tag + "hinges of both sides are mirrored: %s" % at)
        for b in base_nodes(p):
            u = b.u[lid]
            mon.close("supports", u if P.base == "fixed" else u[:2], np.zeros(3 if P.base == "fixed" else 2), 0, 1e-9, tag + "base")
            if P.base == "pinned":
                for e, i in els_at(els, b):
                    mon.close("supports", e.fint[lid]["my"][i], 0, 0, 1e-6 * fm, tag + "moment at a pinned base")


def base_nodes(p):
    return [p.nodes[0].fem_node, p.nodes[1].fem_node]


def tops(p, lid):
    return [columns(p, k)[-1].nodes[-1].fem_node.u[lid] for k in (0, 1)]


def state(p, lids):
    out = {}
    bs = braces(p)
    for lid in lids:
        out[lid] = [np.array([c.NEd[lid], c.MyEd[lid], c.VzEd[lid]]) for k in (0, 1) for c in columns(p, k)] + \
            [np.array([m.NEd[lid]]) for m in sorted(list(p.truss.top_chord) + list(p.truss.bottom_chord), key=lambda c: (isinstance(c, type(p.truss.top_chord[0])), c.nodes[0].x))] + \
            [np.array([b.NEd[lid]]) for b in bs] + [np.array(u[:2]) for u in tops(p, lid)]
    return out


def same(mon, name, a, b, tag, tol):
    for lid in a:
        nm = max([abs(x[0]) for x in a[lid][:-2]] + [abs(x[2]) for x in a[lid][:-2] if len(x) == 3]) + 1.0
        mm = max([abs(x[1]) for x in a[lid][:-2] if len(x) == 3]) + 1.0
        um = max(np.max(np.abs(x)) for x in a[lid][-2:]) + 1e-3
        for i, (x, y) in enumerate(zip(b[lid], a[lid])):
            sc = um if i >= len(a[lid]) - 2 else np.array([nm, mm, nm][:len(x)])
            mon.close(name, np.abs(x) / sc if i < len(a[lid]) - 2 else x / sc, np.abs(y) / sc if i < len(a[lid]) - 2 else y / sc, 0, tol, tag + "item %d case %s" % (i, lid))


def w_portal(r, mon):
    P = params(r)
    d = {k: repr(v) for k, v in vars(P).items() if k != 'cols'}
    mon.case(d)
    p = build(P)
    t = p.truss
    lids = sorted({l["lid"] for l in P.loads}, key=str)
    # geometry
    for k, x in ((0, 0.0), (1, float(P.L))):
        cs = columns(p, k)
        mon.close("geometry", xy(cs[0].nodes[0]), [x, 0], 0, 1e-6, "base")
        mon.close("geometry", xy(cs[-1].nodes[-1]), [x, P.H], 0, 1e-6, "eaves")
    mon.close("geometry", p.ridge_height(), P.H + P.h2 - P.h1, 1e-9, 0, "ridge")
    tn = np.array([xy(n) for n in t.top_nodes])
    mon.close("geometry", tn[:, 1], P.H + (P.h2 - P.h1) * (1 - np.abs(2 * tn[:, 0] / P.L - 1)), 0, 1e-6, "top chord on the roof")
    bn = np.array([xy(n) for n in t.bottom_nodes])
    mon.close("geometry", bn[:, 1], (P.H - P.h1) * np.ones(len(bn)), 0, 1e-6, "bottom chord")
    mon.ok("geometry", sorted(map(str, p.load_cases)) == sorted(map(str, lids)), "load cases %s of loads %s" % (list(p.load_cases), lids))

    def weight(tag):
        ms = list(t.members.values()) + cells(p)
        mon.close("weight", p.weight(), sum(m.cross_section.A * 7850e-9 * np.hypot(*(xy(m.nodes[1]) - xy(m.nodes[0]))) for m in ms), 1e-9, 0, tag + "weight")
        want = [sum(m.cross_section.A * 7850e-9 * np.hypot(*(xy(m.nodes[1]) - xy(m.nodes[0]))) for m in g) for g in (t.top_chord, t.bottom_chord, t.braces.values())]
        mon.close("weight", p.weight_detailed(), want, 1e-9, 0, tag + "weight of chords and braces")
    weight("")
    hist = []
    for step in range(r.choice([1, 2, 3])):
        tag = "%s: " % hist if hist else ""
        if r.random() < 0.6:
            p.structural_analysis("all", support_method=r.choice(["REM", "ZERO"]), design=False)
        else:
            for lid in r.sample(lids, len(lids)):
                p.structural_analysis(lid, support_method=r.choice(["REM", "ZERO"]), design=False)
        check(r, mon, p, P, lids, tag)
        if not P.dx == 0:
            EI = 210e3 * columns(p, 0)[0].cross_section.I[0]
            for lid in lids:
                w = sum(l["q"] for l in P.loads if l["lid"] == lid and l["part"] == "column")
                m = sum(columns(p, k)[-1].nodal_forces[lid]["My"][-1] for k in (0, 1))
                u = tops(p, lid)
                mon.close("sway", u[0][0] + u[1][0], w * P.H ** 4 / 8 / EI - m * P.H ** 2 / 2 / EI, 1e-3, 1e-3 * (abs(u[0][0]) + abs(u[1][0])), tag + "mean sway of the columns in case %s" % lid)
        for lid in lids:
            ls = [l for l in P.loads if l["lid"] == lid]
            cl = {m: sum(l["q"] for l in ls if l["part"] == "column" and l["m"] == m) for m in ("left", "right")}
            if all(l["part"] != "zones" for l in ls) and abs(cl["left"] + cl["right"]) < 1e-9:
                u = tops(p, lid)
                mon.close("symmetry", u[0] * [-1, 1, -1], u[1], 1e-3, 1e-4 * np.max(np.abs(u)), tag + "eaves in case %s" % lid)
        if step:
            q = build(P)
            q.structural_analysis("all", support_method="REM", design=False)
            same(mon, "re-analysis", state(q, lids), state(p, lids), tag, 2e-3)
        else:
            # twice the loads
            k = r.choice([-1.0, 2.0])
            old = [dict(l) for l in P.loads]
            for l in P.loads:
                l["q"] = [k * x for x in l["q"]] if isinstance(l["q"], list) else k * l["q"]
            q = build(P)
            q.structural_analysis("all", support_method="REM", design=False)
            P.loads = old
            a, b = state(p, lids), state(q, lids)
            for lid in a:
                a[lid] = [k * x for x in a[lid]]
            same(mon, "linearity", a, b, tag + "loads times %g " % k, 1e-5)
        op = r.choice(["col", "top", "bottom", "brace"])
        hist.append(op)
        if op == "col":
            P.col = r.randrange(len(P.cols))
            s = P.cols[P.col]()
            p.col_profile = s
            for c in cells(p):
                mon.close("sections", [c.cross_section.A, c.cross_section.I[0]], [s.A, s.I[0]], 1e-9, 0, tag + "profile of the columns")
        elif op == "top":
            P.tc = r.choice(CH)
            t.top_chord_profile = SHS(*P.tc)
        elif op == "bottom":
            P.bc = r.choice(CH)
            t.bottom_chord_profile = SHS(*P.bc)
        else:
            bs = braces(p)
            i = r.randrange(len(bs) // 2)
            P.brace[i] = r.choice(BR)
            bs[i].cross_section = SHS(*P.brace[i])
        weight("%s: " % hist)
        # (inner nodes of members are not moved, and the Y joint of the top chord not to the same point)
        if P.dx or P.nelb > 1 or r.random() < 0.4:
            p.clear_fem()
            p.generate_fem(truss_eccentricity=True, column_eccentricity=True)
            hist[-1] += "/new model"
        else:
            p.update_fem_joint_nodes()
    mon.nontrivial((P.top, P.nd, P.dx > 0, P.up, P.base, tuple(l["part"] for l in P.loads), tuple(hist)))


WORKLOADS = {"portal": (w_portal, 60, 800)}

if __name__ == "__main__":
    vm.main(globals())
