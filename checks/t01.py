"""T01: roof trusses: generated geometry, joint geometry and exact response of the FEM idealisations."""
import os, sys, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vm
sys.path.insert(0, vm.VERIF)
import numpy as np
import trussgen as T
from checks.r02 import factor

PROPERTY = "T01"
RULE = ("one case is one random symmetric roof truss (K, N or KT web, heights or slope given, chord overhang, edge verticals, hollow sections, rods or hinged beams as braces) driven through a "
        "random history of model idealisations, loads (uniform, piecewise zones, linear, point, combinations), joint eccentricities and section changes; every analysis is compared with an "
        "independent frame model of the truss. Non-trivial: distinct (topology, size, idealisation, edit history).")
MONITORS = ["chord geometry", "web geometry", "weight", "joint points", "joint symmetry", "axial forces", "chord shear", "chord moments", "displacements", "zones", "bookkeeping"]


def P(n):
    return np.array(n.coords, float)[:2]


def check_geometry(P_, t, mon, d):
    L, h1, h2, dx, n = P_["L"], P_["h1"], P_["h2"], P_["dx"], P_["ndiv"]
    top = np.array([P(x) for x in t.top_nodes])
    bot = np.array([P(x) for x in t.bottom_nodes])
    tol = 1e-9 * L
    roof = lambda x: (h2 - h1) * np.where(x <= L, x, 2 * L - x) / L
    mon.close("chord geometry", top[:, 1], roof(top[:, 0]), 0, 1e-6, d + " top on roof")
    mon.close("chord geometry", bot[:, 1], -h1 * np.ones(len(bot)), 0, 1e-6, d)
    mon.close("chord geometry", [top[0][0], top[-1][0], bot[0][0], bot[-1][0]], [0, 2 * L, dx, 2 * L - dx], 0, 1e-6, d + " ends")
    for c in (top, bot):
        mon.ok("chord geometry", bool(np.all(np.diff(c[:, 0]) > 1)), "%s order %s" % (d, c[:, 0]))
        mon.close("chord geometry", c[:, 0], 2 * L - c[::-1, 0], 0, 1e-6, d + " symmetric")
    mon.ok("chord geometry", bool(np.min(np.abs(top[:, 0] - L)) < 1e-6), d + " ridge node")
    for ch, ns in ((t.top_chord, t.top_nodes), (t.bottom_chord, t.bottom_nodes)):
        ok = len(ch) == len(ns) - 1 and all(c.nodes[0] is ns[i] and c.nodes[1] is ns[i + 1] for i, c in enumerate(ch))
        mon.ok("chord geometry", ok, d + " chord members follow the nodes")
    # spacing of the panels
    k, up = P_["top"], P_["up"]
    x = bot[:, 0]
    if k == "N":
        q = n - 1 if dx > 0 else n
        want = np.concatenate([np.linspace(dx, L, q + 1), np.linspace(L, 2 * L - dx, q + 1)[1:]])
        mon.close("chord geometry", x, want, 0, 1e-6, d + " N bottom nodes")
        mon.close("chord geometry", top[:, 0], want if dx == 0 else np.concatenate([[0], want, [2 * L]]), 0, 1e-6, d + " N top nodes")
    else:
        inner = x if dx > 0 or up else x[1:-1]
        m = n if dx > 0 or not up else n + 1
        if k == "KT" and dx == 0 and not up:
            m = n
        mon.ok("chord geometry", len(inner) == 2 * m, "%s %d bottom nodes" % (d, len(x)))
        half = np.diff(inner[inner < L])
        mon.ok("chord geometry", len(half) == 0 or float(np.ptp(half)) < 1e-6, "%s equal panels %s" % (d, x))
        if dx > 0 or k == "KT":          # also across the ridge
            mon.ok("chord geometry", float(np.ptp(np.diff(inner))) < 1e-6, "%s equal panels %s" % (d, x))
        br = {id(q): [] for q in t.top_nodes}
        for b in t.braces.values():
            for q, o in (b.nodes, b.nodes[::-1]):
                if id(q) in br:
                    br[id(q)].append(P(o)[0])
        if k == "K" and (dx > 0 or up):
            for q in t.top_nodes:
                if len(br[id(q)]) == 2 and q.x > dx + 1e-6 and q.x < 2 * L - dx - 1e-6:
                    mon.close("chord geometry", P(q)[0], sum(br[id(q)]) / 2, 0, 1e-6, d + " top node over the middle of the panel")
    # web
    tops, bots = set(map(id, t.top_nodes)), set(map(id, t.bottom_nodes))
    seg, pairs, deg = [], set(), {}
    for b in t.braces.values():
        a, c = b.nodes
        if id(a) in bots:
            a, c = c, a
        mon.ok("web geometry", id(a) in tops and id(c) in bots, d + " brace connects the chords")
        pairs.add((id(a), id(c)))
        seg.append((P(a)[0], P(c)[0]))
        for q in (a, c):
            deg[id(q)] = deg.get(id(q), 0) + 1
    mon.ok("web geometry", len(pairs) == len(t.braces), d + " no duplicate braces")
    seg.sort()
    mon.ok("web geometry", all(seg[i][1] <= seg[i + 1][1] + 1e-6 for i in range(len(seg) - 1)), d + " no crossing braces %s" % seg)
    mon.close("web geometry", sorted(seg), sorted((2 * L - a, 2 * L - b) for a, b in seg), 0, 1e-6, d + " web symmetric")
    if dx > 0 or P_["ev"]:
        nm = len(t.top_chord) + len(t.bottom_chord) + len(t.braces)
        nn = len(t.top_nodes) + len(t.bottom_nodes)
        mon.ok("web geometry", nm == 2 * nn - 3, "%s triangulated: %d members %d nodes" % (d, nm, nn))
    vert = sum(abs(a - b) < 1e-6 for a, b in seg)
    diag = len(seg) - vert
    ev = 2 * P_["ev"] * (dx == 0)
    if k == "K":
        w = (4 * n, 0) if dx > 0 else ((4 * n + 2, ev) if up else (4 * n, ev))
    elif k == "N":
        w = (2 * n, 2 * n - 1) if dx > 0 else (2 * n, 2 * n - 1 + ev)
    else:
        w = (4 * n, 2 * n) if dx > 0 else ((4 * n + 2, 2 * n + ev) if up else (4 * n, 2 * n + ev))
    mon.ok("web geometry", (diag, vert) == w, "%s %d diagonals %d verticals, want %s" % (d, diag, vert, w))
    # supports
    s = sorted((P(q.node)[0], tuple(q.dofs)) for q in t.supports.values())
    y0 = 0.0 if dx > 0 else -h1
    mon.ok("bookkeeping", s == [(0.0, (0, 1)), (2 * L, (1,))] or (abs(s[1][0] - 2 * L) < 1e-6 and s[0][0] == 0 and [q[1] for q in s] == [(0, 1), (1,)]), "%s supports %s" % (d, s))
    mon.close("bookkeeping", [P(q.node)[1] for q in t.supports.values()], [y0, y0], 0, 1e-6, d)
    # joints
    for j in t.joints.values():
        want = {1: T.TubularYJoint, 2: T.TubularKGapJoint, 3: T.TubularKTGapJoint}[deg[id(j.node)]]
        mon.ok("bookkeeping", type(j) is want and len(j.braces) == deg[id(j.node)] and set(j.chords) == {c for c in list(t.top_chord) + list(t.bottom_chord) if j.node in c.nodes},
               "%s joint %r" % (d, j))
    mon.ok("bookkeeping", len(t.joints) == len(deg), "%s %d joints" % (d, len(t.joints)))


def check_weight(t, mon, d):
    W = [0, 0, 0]
    for m in t.members.values():
        k = 0 if isinstance(m, T.TopChord) else 1 if isinstance(m, T.BottomChord) else 2
        W[k] += m.cross_section.A * 7850e-9 * float(np.hypot(*(P(m.nodes[1]) - P(m.nodes[0]))))
    mon.close("weight", list(t.weight_detailed()), W, 1e-9, 0, d)
    mon.close("weight", t.weight(), sum(W), 1e-9, 0, d)


def check_joints(t, mon, d):
    for j in t.joints.values():
        if not isinstance(j, T.TubularKGapJoint):
            continue
        g = T.joint_points(t, j)
        mon.close("joint points", np.array(j.xp_coord, float)[:2], g["xp"], 0, 1e-6, d)
        mon.ok("joint points", j.ridge == g["ridge"], d)
        if not g["ridge"]:
            mon.close("joint points", np.array(j.xchord(), float)[:2], g["xc"], 0, 1e-6, d)
        mon.close("joint points", np.array(j.xc_face(), float)[:2], g["face"], 0, 1e-6, d)
        mon.close("joint points", j.eccentricity(), j.yloc, 0, 1e-12, d)
        # angles and gap of the true brace axes
        if g["ridge"]:
            continue
        foot, ang, hh = [], [], []
        for b in j.braces:
            o = b.opposite_node(j.node)
            oj = [q for q in t.joints.values() if q.node is o][0]
            q = T.joint_points(t, oj)["xp"] if isinstance(oj, T.TubularKGapJoint) else P(o)
            v = q - g["xp"]
            v = v / np.hypot(*v)
            c, s = float(v @ g["d0"]), abs(float(v[0] * g["d0"][1] - v[1] * g["d0"][0]))
            a = math.atan2(s, abs(c))
            ang.append(a)
            hh.append(b.cross_section.H)
            x = T.isect(g["xp"], v, g["face"], g["d0"])
            foot.append((float((x - g["n"]) @ g["d0"]), 0.5 * b.cross_section.H / s, c))
        mon.close("joint points", j.angles, np.degrees(ang), 1e-7, 0, "%s angles %s" % (d, hh))
        if foot[0][2] * foot[1][2] < 0:          # braces lean to opposite sides
            lo, hi = sorted(foot)
            gap = (hi[0] - hi[1]) - (lo[0] + lo[1])
            mon.close("joint points", j.gap, gap, 0, 1e-6 * max(1, abs(hi[0])) + 1e-6, d + " gap")


def compare(mon, t, ref, lids, d, tol=3e-4):
    u = max([np.max(np.abs(x[0][:, :2])) for res in ref.values() for x in res.values()] + [1e-9])
    F = max([np.max(np.abs(x[1])) for res in ref.values() for x in res.values()] + [1e-6])
    chords = set(list(t.top_chord) + list(t.bottom_chord))
    V_ = max([np.max(np.abs(x[2])) for res in ref.values() for c, x in res.items() if c in chords] + [1e-3 * F])
    M_ = max([np.max(np.abs(x[3])) for res in ref.values() for c, x in res.items() if c in chords] + [F])
    for lid in lids:
        for k, (m, (U, N, V, M)) in enumerate(ref[lid].items()):
            dd = "%s %s#%d case %s" % (d, type(m).__name__, k, lid)
            f = m.nodal_forces[lid]
            mon.close("axial forces", f["N"], N, 0, tol * F, dd)
            if m in chords or t.braces_as_beams:
                mon.close("chord shear", f["Vz"], V, 0, tol * V_, dd)
                mon.close("chord moments", f["My"], M, 0, tol * M_, dd)
            g = np.array([np.asarray(x, float) for x in m.nodal_displacements[lid]])
            mon.close("displacements", g[:, :2], U[:, :2], 0, tol * u, dd)


def gen_load(mon, r, Pm, t, lid, model, lt):
    """adds one load command to the truss, returns the plain-data loads it stands for"""
    k = r.choice(["uniform", "uniform", "zones", "line", "point"])
    if model == "ecc_elements" and k in ("line", "point"):
        k = "uniform"
    if k == "uniform":
        q = r.uniform(-30, 30)
        ch = "top" if model == "ecc_elements" or r.random() < 0.7 else "bottom"
        t.generate_uniform_load(q, ch, load_id=lid, ltype=lt)
        return [dict(kind="l", mem=c, q=[q, q], dir="y", coords="global", f=1.0) for c in (t.top_chord if ch == "top" else t.bottom_chord)]
    if k == "zones":
        L2 = 2 * Pm["L"]
        nz = r.randint(1, 4)
        z = sorted(r.uniform(0.02, 0.98) * L2 for _ in range(nz))
        if r.random() < 0.3:
            z = sorted(r.sample([c.nodes[1].x for c in t.top_chord][:-1], min(nz, len(t.top_chord) - 1)))
        xs = [c.nodes[0].x for c in t.top_chord] + [L2]
        if any(sum(a + 1e-6 < v < b - 1e-6 for v in z) > 1 for a, b in zip(xs, xs[1:])):
            z = [Pm["L"]]                          # two boundaries on one member are not expressible
        q = [r.uniform(-20, 20) for _ in range(len(z) + 1)]
        old = set(map(id, t.loads.values()))
        t.generate_piecewise_uniform_load(q, z, load_id=lid, ltype=lt)
        new = [x for x in t.loads.values() if id(x) not in old]
        tot = 0.0
        for x in new:
            Lm = float(np.hypot(*(P(x.member.nodes[1]) - P(x.member.nodes[0]))))
            v = x.values
            tot += Lm * (v[0] * x.xdiv + v[1] * (1 - x.xdiv) if isinstance(x, T.PWLineLoad) else 0.5 * (v[0] + v[1]))
        zz = [0] + z + [L2]
        ca = Pm["L"] / math.hypot(Pm["L"], Pm["h2"] - Pm["h1"])
        mon.close("zones", tot, sum(a * (c - b) for a, b, c in zip(q, zz, zz[1:])) / ca, 1e-9, 1e-6 * L2, "zones %s loads %s" % (z, q))
        mon.ok("zones", len(new) == len(t.top_chord), "one load per chord member")
        out = []
        for c in t.top_chord:
            a, b = float(c.nodes[0].x), float(c.nodes[1].x)
            ins = [(i, v) for i, v in enumerate(z) if a + 1e-9 < v < b - 1e-9]
            if not ins:
                i = sum(v <= 0.5 * (a + b) for v in z)
                out.append(dict(kind="l", mem=c, q=[q[i], q[i]], dir="y", coords="global", f=1.0))
            else:
                i, v = ins[0]
                out.append(dict(kind="pw", mem=c, q=[q[i], q[i + 1]], xdiv=(v - a) / (b - a), dir="y", coords="global", f=1.0))
        return out
    if k == "line":
        c = r.choice(list(t.top_chord) + list(t.bottom_chord))
        q = [r.uniform(-20, 20), r.uniform(-20, 20)]
        f = r.choice([1.0, r.uniform(-2, 2)])
        dr, cs = r.choice("xyy"), r.choice(["global", "global", "local"])
        t.add(T.LineLoad(c, list(q), dr, load_id=lid, f=f, ltype=lt, coord_sys=cs))
        return [dict(kind="l", mem=c, q=q, dir=dr, coords=cs, f=f)]
    n = r.choice([n for n in t.nodes if any(n in c.nodes for c in t.members.values())])
    v = [r.uniform(-4e4, 4e4), r.uniform(-4e4, 4e4), 0.0]
    f = r.choice([1.0, r.uniform(-2, 2)])
    t.add(T.PointLoad(n, list(v), load_id=lid, f=f, ltype=lt))
    return [dict(kind="p", node=n, v=v, f=f)]


def w_truss(r, mon):
    Pm = T.params(r)
    mon.case({k: repr(v) for k, v in Pm.items()})
    t = T.build(Pm)
    d = "%s n=%d dx=%.0f up=%s ev=%s beams=%s" % (Pm["top"], Pm["ndiv"], Pm["dx"], Pm["up"], Pm["ev"], Pm["beams"])
    check_geometry(Pm, t, mon, d)
    check_weight(t, mon, d)
    check_joints(t, mon, d)
    models = ["no_eccentricity"]
    if Pm["dx"] > 0 or Pm["ev"]:
        models.append("en1993")
    if Pm["dx"] > 0:
        models.append("ecc_elements")
    model = r.choice(models)
    ids = r.sample([0, 1, 2, 5], r.choice([1, 2, 2]))
    cases = {}
    types = {i: r.choice(["live", "dead", "wind", "snow"]) for i in ids}
    for i in ids:
        for _ in range(r.randint(1, 2)):
            cases.setdefault(i, []).extend((x, 1.0) for x in gen_load(mon, r, Pm, t, i, models[-1], types[i]))
    if r.random() < 0.4:
        use = r.sample(ids, len(ids))
        ct = r.choice(["ULS", "SLS"])
        lead = next((i for i in use if types[i] != "dead"), None)
        cmb = T.LoadCombination(40, ct, load_cases=[t.load_cases[i] for i in use])
        t.add(cmb)
        cmb.combine_loads()
        cases[40] = [(x, factor(types[i], ct, i == lead)) for i in use for x, _ in cases[i]]
    hist = [model]
    kg = [j for j in t.joints.values() if isinstance(j, T.TubularKGapJoint)]
    mirror = {j: [q for q in kg if abs(P(q.node)[0] + P(j.node)[0] - 2 * Pm["L"]) < 1e-6 and (q.node in t.top_nodes) == (j.node in t.top_nodes)] for j in kg}
    if r.random() < 0.5 and len(kg):
        t.symmetry()
        sym = True
    else:
        sym = False
    if t.braces_as_beams and r.random() < 0.5 and 99 not in cases:
        t.add_self_weight()
        sw = True
    else:
        sw = False
    regen = True
    for step in range(r.randint(1, 5)):
        if sw:
            cases[100] = [(dict(kind="l", mem=m, q=[-m.cross_section.A * 7850e-9 * 9.81] * 2, dir="y", coords="global", f=1.0), 1.0) for m in t.members.values()]
        ref, R = T.reference(t, model, cases)
        if regen:
            t.generate_fem(model)
        else:
            t.update_fem_joint_nodes()
        regen = True
        lids = sorted(cases)
        if r.random() < 0.3:
            lids = [r.choice(lids)]
            t.structural_analysis(lids[0], support_method=r.choice(["REM", "ZERO"]), design=False)
        else:
            t.structural_analysis("all", support_method=r.choice(["REM", "ZERO"]), design=False)
        compare(mon, t, ref, lids, "%s sym=%s %s" % (d, sym, hist))
        mon.nontrivial((Pm["top"], len(t.members), Pm["beams"], tuple(hist)))
        op = r.choice(["model", "model", "yloc", "yloc", "xloc", "sec", "brace", "move", "dy", "load"])
        if op == "model":
            model = r.choice(models)
            op = model
        elif op in ("yloc", "xloc") and kg:
            j = r.choice(kg)
            ridge = T.joint_points(t, j)["ridge"]
            before = {q: (q.yloc, q.xloc) for q in kg}
            if op == "xloc" and ridge:
                continue
            h0 = j.chords[0].cross_section.H
            v = r.choice([0.0, r.uniform(-0.2, -0.05) * h0, r.uniform(0.05, 0.3) * h0, r.uniform(0.05, 0.3) * h0])
            setattr(j, op, v)
            mir = mirror[j]
            for q in kg:
                y, x = before[q]
                if q is j or (sym and q in mir and q is not j):
                    if op == "yloc":
                        y = v
                    else:
                        x = v if q is j else -v
                mon.close("joint symmetry", [q.yloc, q.xloc], [y, x], 0, 1e-12, "%s %s=%s at %s, joint %s" % (d, op, v, P(j.node), P(q.node)))
            check_joints(t, mon, d)
        elif op == "sec":
            s = T.chord(r)
            if r.random() < 0.5:
                t.top_chord_profile = s
            else:
                t.bottom_chord_profile = s
            check_weight(t, mon, d)
            check_joints(t, mon, d)
        elif op == "dy":
            v = r.uniform(-0.2, 0.2) * Pm["h1"]
            y = [P(n)[1] for n in t.bottom_nodes]
            t.bottom_chord_dy(v)
            mon.close("chord geometry", [P(n)[1] for n in t.bottom_nodes], [q + v for q in y], 0, 1e-9, d + " bottom_chord_dy")
            check_weight(t, mon, d)
            check_joints(t, mon, d)
        elif op == "move":
            n = r.choice(t.bottom_nodes)
            n.x = n.x + r.uniform(-0.1, 0.1) * Pm["L"] / (Pm["ndiv"] + 1)
            check_weight(t, mon, d)
            check_joints(t, mon, d)
        elif op == "load":
            lid = r.choice(ids)
            for x in gen_load(mon, r, Pm, t, lid, models[-1], types[lid]):
                cases[lid].append((x, 1.0))
                if 40 in cases:
                    cases[40].append((x, factor(types[lid], ct, lid == lead)))
            if 40 in cases:
                cmb.combine_loads()
        else:
            b = r.choice(list(t.braces.values()))
            b.cross_section = T.SHS(*r.choice(T.BR))
            check_weight(t, mon, d)
            check_joints(t, mon, d)
        if op in ("yloc", "xloc", "brace", "move", "dy", "sec") and model == "ecc_elements" and Pm["nelc"] == 1 and not (t.braces_as_beams and Pm["nelb"] > 1) and not sw \
                and not any(x["kind"] == "pw" for l in cases.values() for x, _ in l) and r.random() < 0.7:
            regen = False                  # the nodes of the joints are moved, the model is kept
            op += "/update"
        if sw and op in ("sec", "brace"):
            t.add_self_weight()
        hist.append(op)


WORKLOADS = {"truss": (w_truss, 500, 9000)}

if __name__ == "__main__":
    vm.main(globals())
