"""Random roof trusses (SlopedTruss), an independent description of their geometry and FEM idealisations, and the reference solution."""
import math
import numpy as np
from ref.frames import Frame2D
from vm import CaseSkip
from metku.raami.raami_plane_truss import SlopedTruss, TopChord, BottomChord, TrussBrace, TubularKGapJoint, TubularYJoint, TubularKTGapJoint
from metku.raami.frame_loads import LineLoad, PWLineLoad, PointLoad, LoadCase, LoadCombination
from metku.sections.steel.RHS import RHS, SHS
from metku.sections.steel.ISection import IPE

E = 210e3
CH = [(120, 5), (140, 5), (150, 6), (160, 6), (160, 8), (180, 8), (200, 8)]
BR = [(60, 3), (70, 4), (80, 4), (90, 5), (100, 5), (100, 6)]


def chord(r):
    if r.random() < 0.3:
        return RHS(r.choice([160, 200]), r.choice([120, 150]), r.choice([6, 8]))
    return SHS(*r.choice(CH))


def params(r):
    P = dict(top=r.choice(["K", "K", "N", "KT"]), ndiv=r.choice([2, 3, 4, 5]), L=r.choice([6000.0, 8000.0, r.uniform(7000, 15000)]),
             h1=r.uniform(900, 2000), up=r.random() < 0.5, ev=r.random() < 0.7, nelc=r.choice([1, 2, 4]), nelb=1, beams=False)
    P["h2"] = P["h1"] + r.uniform(0.02, 0.12) * P["L"]
    P["dx"] = r.choice([0, 1.0, 1.0]) * r.uniform(0.3, 0.9) * P["L"] / (P["ndiv"] + 1)
    P["form"] = r.choice(["h1h2", "h1slope", "h2slope"])
    if r.random() < 0.3:
        P["beams"] = True
        P["nelb"] = r.choice([1, 1, 2, 3])
    P["secs"] = [chord(r), chord(r), SHS(*r.choice(BR))]
    return P


def build(P):
    sl = math.degrees(math.atan((P["h2"] - P["h1"]) / P["L"]))
    kw = dict(h1h2=dict(h1=P["h1"], h2=P["h2"]), h1slope=dict(h1=P["h1"], slope=sl), h2slope=dict(slope=sl, h2=P["h2"]))[P["form"]]
    t = SlopedTruss(L1=P["L"], L2=P["L"], dx1=P["dx"], dx2=P["dx"], **kw)
    t.braces_as_beams = P["beams"]
    t.generate_topology(P["top"], P["ndiv"], P["secs"][0], P["secs"][1], P["secs"][2], first_diagonal_up=P["up"], edge_verticals=P["ev"],
                        nel_chord=P["nelc"], nel_brace=P["nelb"])
    t.generate_supports()
    t.generate_joints()
    return t


def joint_points(t, j, yl=None, xl=None):
    """Independent joint geometry: xp, xc, face point, for a K joint (yloc/xloc as set)"""
    n = np.array(j.node.coords, float)[:2]
    c = j.chords
    d0 = np.array(c[0].nodes[1].coords, float)[:2] - np.array(c[0].nodes[0].coords, float)[:2]
    d0 /= np.hypot(*d0)
    h0 = c[0].cross_section.H
    up = isinstance(c[0], TopChord)
    ridge = False
    if len(c) > 1:
        d1 = np.array(c[1].nodes[1].coords, float)[:2] - np.array(c[1].nodes[0].coords, float)[:2]
        d1 /= np.hypot(*d1)
        ridge = abs(d0[0] * d1[1] - d0[1] * d1[0]) > 1e-6
    out = np.array([-d0[1], d0[0]]) if up else np.array([d0[1], -d0[0]])
    if ridge:
        xp = n + np.array([0.0, j.yloc])
        face = n - np.array([0.0, 0.5 * h0 / d0[0]])
        xc = n
    else:
        xp = n + j.xloc * d0 + j.yloc * out
        face = n - 0.5 * h0 * out
        xc = n + j.xloc * d0
    return dict(n=n, d0=d0, out=out, ridge=ridge, xp=xp, xc=xc, face=face)


def isect(p, d, q, e):
    A = np.array([d, -e]).T
    s = np.linalg.solve(A, q - p)
    return p + s[0] * d


class Ref:
    def __init__(self, t, model):
        self.t, self.nodes, self.elems, self.idx = t, [], [], {}
        self.rev = set()           # braces whose model runs against the member direction

    def node(self, key, x):
        if key is None:
            self.nodes.append([float(x[0]), float(x[1])])
            return len(self.nodes) - 1
        if key not in self.idx:
            self.nodes.append([float(x[0]), float(x[1])])
            self.idx[key] = len(self.nodes) - 1
        return self.idx[key]

    def el(self, i, j, sec, kind="beam", rel=()):
        self.elems.append(dict(n=(i, j), E=E, A=sec.A, I=sec.I[0], rel=list(rel), kind=kind))
        return len(self.elems) - 1


def reference(t, model, cases, need_cond=1e10):
    """cases: {lid: [(load, factor)]} with live load objects' data (member, q, kind).
    Returns per case {member: (U, N, V, M)}"""
    R = Ref(t, model)
    N = {n: np.array(n.coords, float)[:2] for n in t.nodes}
    js = list(t.joints.values())
    K = {id(j): joint_points(t, j) for j in js if isinstance(j, TubularKGapJoint)} if model != "no_eccentricity" else {}
    jn = {}
    for j in js:
        jn[j.node] = j
    # chord nodes
    for n in t.nodes:
        j = jn.get(n)
        if j is not None and id(j) in K and model == "en1993":
            R.node(("c", n), K[id(j)]["xc"])
            if np.hypot(*(K[id(j)]["xp"] - K[id(j)]["xc"])) < 1e-6:
                R.idx[("p", n)] = R.idx[("c", n)]
        elif j is not None and id(j) in K and model == "ecc_elements":
            if K[id(j)]["ridge"]:
                R.node(("c", n), K[id(j)]["n"])
        else:
            R.node(("c", n), N[n])
    mem = {}
    rigid = IPE(500)

    def brace_end(b, n):
        j = jn[n]
        if id(j) in K:
            return K[id(j)]["xp"]
        return N[n]
    # braces
    for b in t.braces.values():
        na, nb = b.nodes
        # top node first in the model when built with joints
        order = [na, nb]
        if model != "no_eccentricity":
            ta = na in t.top_nodes
            order = [na, nb] if ta else [nb, na]
            if not ta:
                R.rev.add(b)
        keys = []
        for n in order:
            j = jn.get(n)
            if model == "en1993" and id(j) in K:
                keys.append(R.node(("p", n), K[id(j)]["xp"]))
            elif model == "ecc_elements" and id(j) in K:
                g = K[id(j)]
                p = [brace_end(b, m) for m in order]
                d = (p[1] - p[0]) / np.hypot(*(p[1] - p[0]))
                chords = sorted(j.chords, key=lambda c: c.nodes[0].x + c.nodes[1].x)
                other = na if n is nb else nb
                sibl = [q for q in j.braces if q is not b][0]
                so = sibl.nodes[0] if sibl.nodes[1] is n else sibl.nodes[1]
                left = N[other][0] < N[so][0]
                cd = g["d0"]
                if g["ridge"]:
                    c = chords[0] if left else chords[-1]
                    cd = N[c.nodes[1]] - N[c.nodes[0]]
                    cd = cd / np.hypot(*cd)
                xf = isect(g["xp"], d, g["face"], cd)
                keys.append(R.node(("f", n, b), xf))
                xh = g["n"] + cd * float(np.dot(xf - g["n"], cd))
                side = "L" if left else "R"
                R.node(("h", n, side), xh)
                R.el(R.idx[("f", n, b)], R.idx[("h", n, side)], rigid)
            else:
                keys.append(R.idx[("c", n)])
        i, j2 = keys
        a, c = np.array(R.nodes[i]), np.array(R.nodes[j2])
        nel = b.num_elements if t.braces_as_beams or model == "no_eccentricity" else 1
        ns = [i] + [R.node(None, a + (c - a) * k / nel) for k in range(1, nel)] + [j2]
        beam = t.braces_as_beams
        es = []
        for k in range(nel):
            rel = []
            if beam and k == 0:
                rel.append(2)
            if beam and k == nel - 1:
                rel.append(5)
            es.append(R.el(ns[k], ns[k + 1], b.cross_section, "beam" if beam else "rod", rel))
        mem[b] = (ns, es)
    if model == "en1993":
        for j in js:
            if id(j) in K and R.idx[("p", j.node)] != R.idx[("c", j.node)]:
                R.el(R.idx[("p", j.node)], R.idx[("c", j.node)], rigid)
    gaps = []
    for c in list(t.top_chord) + list(t.bottom_chord):
        na, nb = c.nodes
        pts = []
        for n, side in ((na, "R"), (nb, "L")):
            j = jn.get(n)
            if model == "ecc_elements" and id(j) in K:
                pts.append(R.idx[("h", n, side)])
            else:
                pts.append(R.idx[("c", n)])
        a, b_ = np.array(R.nodes[pts[0]]), np.array(R.nodes[pts[1]])
        if model == "en1993":
            xs = [N[na] + (N[nb] - N[na]) * k / c.num_elements for k in range(1, c.num_elements)]
        else:
            xs = [a + (b_ - a) * k / c.num_elements for k in range(1, c.num_elements)]
        ns = [pts[0]] + [R.node(None, x) for x in xs] + [pts[1]]
        es = []
        for k in range(c.num_elements):
            es.append(R.el(ns[k], ns[k + 1], c.cross_section))
        mem[c] = (ns, es)
    if model == "ecc_elements":
        for j in js:
            if id(j) in K:
                n = j.node
                sec = j.chords[0].cross_section
                l, r_ = R.idx[("h", n, "L")], R.idx[("h", n, "R")]
                if K[id(j)]["ridge"]:
                    gaps.append((j, [R.el(l, R.idx[("c", n)], sec), R.el(R.idx[("c", n)], r_, sec)]))
                else:
                    gaps.append((j, [R.el(l, r_, sec)]))
    supp = []
    for s in t.supports.values():
        supp.append((R.idx[("c", s.node)], list(s.dofs)))
    fr = Frame2D(R.nodes, R.elems, supp)
    R.fr = fr
    out = {}
    chords = set(list(t.top_chord) + list(t.bottom_chord))
    for lid, lds in cases.items():
        ll = {}

        def put(e, q, l, f):
            ll.setdefault(e, []).append(dict(q=list(q), dir=l["dir"], coords=l["coords"], f=f))
        ends_ = {}
        pl = []
        for l, fac in lds:
            f = l["f"] * fac
            if l["kind"] == "p":
                pl.append((R.idx[("c", l["node"])], [f * v for v in l["v"]]))
                continue
            c = l["mem"]
            ns, es = mem[c]
            n = len(es)
            q0, q1 = l["q"]
            na, nb = c.nodes
            Lm = np.hypot(*(N[nb] - N[na]))
            for k, e in enumerate(es):
                if l["kind"] == "l":
                    q = [q0 + (q1 - q0) * k / n, q0 + (q1 - q0) * (k + 1) / n]
                else:
                    d = (N[nb] - N[na]) / Lm
                    s = [float(np.dot(np.array(R.nodes[ns[k + m]]) - N[na], d)) / Lm for m in (0, 1)]
                    if max(s) <= l["xdiv"] + 1e-6:
                        q = [q0, q0]
                    elif min(s) >= l["xdiv"] - 1e-6:
                        q = [q1, q1]
                    else:
                        q = [q0, q0] if abs(q0 * f) >= abs(q1 * f) else [q1, q1]
                put(e, q, l, f)
            if c not in chords:
                continue
            key = (l["dir"], l["coords"])
            ends_.setdefault((c, key), np.zeros(2))
            ends_[(c, key)] += np.array([q0, q1]) * f
        for j, ge in gaps:
            if len(j.chords) < 2:
                continue
            for key in {k for (_, k) in ends_}:
                if (j.chords[0], key) in ends_ and (j.chords[1], key) in ends_:
                    ql, qr = ends_[(j.chords[0], key)][1], ends_[(j.chords[1], key)][0]
                    l = dict(dir=key[0], coords=key[1])
                    if len(ge) == 2:
                        put(ge[0], [ql, ql], l, 1.0)
                        put(ge[1], [qr, qr], l, 1.0)
                    else:
                        q = ql if abs(ql) >= abs(qr) else qr
                        put(ge[0], [q, q], l, 1.0)
        try:
            U, Rf = fr.solve(pl, ll)
        except np.linalg.LinAlgError:
            raise CaseSkip("unstable")
        if not np.isfinite(fr.cond) or fr.cond > need_cond:
            raise CaseSkip("ill conditioned")
        res = {}
        for m, (ns, es) in mem.items():
            Um = U[ns]
            if m in R.rev:
                Um = Um[::-1]              # displacements are listed from the start of the member
            res[m] = (Um, [-Rf[e][0] for e in es] + [Rf[es[-1]][3]],
                      [Rf[e][1] for e in es] + [-Rf[es[-1]][4]], [-Rf[e][2] for e in es] + [Rf[es[-1]][5]])
        out[lid] = res
    return out, R
