"""X01: models exported to Robot and Abaqus files describe the model in memory."""
import os, sys, math, re, shutil, tempfile, contextlib, io
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vm
sys.path.insert(0, vm.VERIF)
import numpy as np
import metku.eurocodes.en1993
import raamigen as G
import trussgen as T
from metku.raami.raami import Raami
import metku.raami.raami as RA
import metku.raami.raami_plane_truss as PT
import metku.raami.raami_simple_truss as ST
from metku.raami.exports import AbaqusOptions
from metku.raami.frame_supports import FixedSupport, XYHingedSupport, XHingedSupport, YHingedSupport
from metku.framefem.elements.rod import Rod
import metku.sections.steel.catalogue as cat
from metku.sections.steel.RHS import RHS, SHS
from metku.sections.steel.ISection import IPE, HEA, HEB, HEM, HEAA, HEC

PROPERTY = "X01"
RULE = ("random frames, Frame2D frames with loads, roof trusses and simple trusses written to Robot files, and trusses in all calculation models and frames of hollow sections written to Abaqus files, repeatedly and in "
        "turns, with and without options; the files are read back. Non-trivial: distinct (structure, model, sizes, options).")
MONITORS = ["robot header", "robot nodes", "robot elements", "robot profiles", "robot supports", "robot releases", "robot loads", "abaqus nodes", "abaqus elements", "abaqus sets", "abaqus sections",
            "abaqus materials", "abaqus releases", "abaqus supports", "abaqus eccentricities", "abaqus monitored", "options", "section outline"]


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="x01")
    old = os.getcwd()
    try:
        os.chdir(d)
        with contextlib.redirect_stdout(io.StringIO()):
            yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d)


# ---------------------------------------------------------------- Robot
def robot_name(s):
    if isinstance(s, RHS):
        return "RRHS %.0fx%.0fx%.1f" % (s.H, s.B, s.T)
    n = repr(s).split()
    if hasattr(s, "tf"):
        # the catalogue profile with these dimensions
        n = [k for k, v in cat.profile.items() if [v["h"], v["b"], v["t_w"], v["t_f"]] == [s.h, s.b, s.tw, s.tf]][0].split()
        if n[0] != "HE":
            return " ".join(n)
    return "%s%s %s" % (n[0], n[2], n[1]) if n[0] == "HE" else repr(s)


def read_robot(path):
    out, cur = {}, None
    head = ("NODes", "ELEments", "PROperties", "SUPports", "RELeases", "UNIts", "LOAds", "END")
    for ln in open(path):
        ln = ln.rstrip("\n")
        if not ln.strip() or ln.startswith(";"):
            continue
        w = ln.split()
        if not ln.startswith(" ") and w[0] == "NODes" and len(w) == 4:
            out["count"] = (int(w[1]), int(w[3]))
        elif not ln.startswith(" ") and w[0] in head and len(w) == 1:
            cur = w[0]
            out.setdefault(cur, [])
        elif cur:
            out[cur].append(ln)
        else:
            out.setdefault("top", []).append(ln.strip())
    return out


def check_robot(mon, d, path, X, mems, supp):
    """mems: [(i, j, section, hinge1, hinge2)], supp: {node: free directions}"""
    mon.ok("robot header", d.get("count") == (len(X), len(mems)) and "FRAme PLAne" in d["top"] and "END" in d, "%s, %d nodes, %d members" % (d.get("count"), len(X), len(mems)))
    got = {int(l.split()[0]): list(map(float, l.split()[1:])) for l in d["NODes"]}
    mon.ok("robot nodes", len(got) == len(d["NODes"]) and sorted(got) == list(range(1, len(X)+1)), "node numbers")
    for i, x in enumerate(X):
        mon.close("robot nodes", got.get(i+1, [np.nan]*2), x[:2], 0, 1e-6)
    got = {int(l.split()[0]): tuple(map(int, l.split()[1:])) for l in d["ELEments"]}
    mon.ok("robot elements", got == {k+1: (m[0]+1, m[1]+1) for k, m in enumerate(mems)}, "%s" % got)
    pr = {}
    for a, b in zip(d["PROperties"][::2], d["PROperties"][1::2]):
        w = b.split()
        pr[int(w[0])] = (a.strip().strip('"'), " ".join(w[1:]))
    for k, m in enumerate(mems):
        mon.ok("robot profiles", pr.get(k+1) == (str(m[2].material), robot_name(m[2])), "member %d: %s for %s" % (k+1, pr.get(k+1), robot_name(m[2])))
    got = {int(l.split()[0]): {w.strip(",") for w in l.split()[1:]} for l in d["SUPports"]}
    mon.ok("robot supports", len(d["SUPports"]) == len(supp) and got == {i+1: set(f) for i, f in supp.items()}, "%s, wanted %s" % (got, supp))
    got = {}
    for l in d["RELeases"]:
        w = re.match(r"\s*ELEments\s*(\d+)\s*(ORIgin RY)?\s*(END RY)?\s*$", l)
        mon.ok("robot releases", w is not None and int(w[1]) not in got, l)
        if w:
            got[int(w[1])] = (bool(w[2]), bool(w[3]))
    want = {k+1: (m[3], m[4]) for k, m in enumerate(mems) if m[3] or m[4]}
    mon.ok("robot releases", got == want, "%s, wanted %s" % (got, want))


FREE = {(0, 1, 2): (), (0, 1): ("RY",), (0,): ("UZ", "RY"), (1,): ("UX", "RY")}


def fname(r, d):
    base = r.choice(["Raami", "a.b", "frame 2", "x", "r.v2"])
    name = r.choice([base, base+".", "./"+base, "../"+os.path.basename(d)+"/"+base, d+"/"+base])
    return name, os.path.join(d, base+".str")


def rob_section(r):
    return r.choice([lambda: IPE(r.choice(G.IPES)), lambda: HEA(r.choice(G.HES)), lambda: HEB(r.choice(G.HES)), lambda: r.choice([HEM, HEAA, HEC])(r.choice([120, 200, 300])),
                     lambda: RHS(r.choice([200, 250]), r.choice([100, 120]), r.choice([6, 8])), lambda: RHS(100, 160, 6.3), lambda: SHS(r.choice([120, 160]), r.choice([5, 7.1]))])()


def w_robot(r, mon):
    which = r.choice(["frame", "frame", "truss", "simple"])
    if which == "frame":
        S = G.topology(r)
        for m in S.members:
            m["sec"] = rob_section(r)
        saved = dict(G.SUPP)
        S.supports = [(i, list(r.choice([(0, 1, 2), (0, 1), (0,), (1,)]))) for i in r.sample(range(len(S.nodes)), r.randint(1, len(S.nodes)))]
        f, nodes, mems = G.build_members(S)
        X = [list(x) for x in S.nodes]
        M = [(*m["n"], m["sec"], *([True]*2 if m["mtype"] in ("bar", "brace") else m["hinges"])) for m in S.members]
        supp = {i: FREE[tuple(d)] for i, d in S.supports}
        tag = (S.fam, len(X), len(M))
        desc = dict(nodes=S.nodes, members=[dict(m, sec=repr(m["sec"])) for m in S.members], supports=S.supports)
        if r.random() < 0.4:
            f.generate_fem()
        if r.random() < 0.5:
            i = r.randrange(len(X))
            X[i][0] += 10.0
            nodes[i].x = X[i][0]
            k = r.randrange(len(M))
            s = rob_section(r)
            mems[k].cross_section = s
            M[k] = (M[k][0], M[k][1], s, M[k][3], M[k][4])
    elif which == "truss":
        P = T.params(r)
        P["secs"] = [SHS(*r.choice(T.CH)), RHS(150, 100, 6), SHS(*r.choice(T.BR))]
        f = T.build(P)
        nd = {n: i for i, n in enumerate(f.nodes)}
        X = [list(n.coords) for n in f.nodes]
        chords = list(f.top_chord)+list(f.bottom_chord)
        M = [None]*len(f.members)
        for m in chords:
            M[m.mem_id] = (nd[m.nodes[0]], nd[m.nodes[1]], P["secs"][0 if m in f.top_chord else 1], False, False)
        for m in f.braces.values():
            M[m.mem_id] = (nd[m.nodes[0]], nd[m.nodes[1]], P["secs"][2], True, True)
        mon.ok("robot elements", None not in M, "member numbers of a truss")
        supp = {nd[s.node]: FREE[tuple(s.dofs)] for s in f.supports.values()}
        desc = {k: v if k != "secs" else [repr(s) for s in v] for k, v in P.items()}
        tag = (P["top"], P["ndiv"], P["up"], P["ev"])
        if r.random() < 0.4:
            f.generate_fem(model=r.choice(["no_eccentricity"]+["en1993"]*(P["dx"] > 0 or P["ev"])))
    else:
        n = r.randint(1, 4)
        X = [[r.uniform(-3e3, 3e3), r.uniform(-3e3, 3e3)] for _ in range(n+2)]
        pairs = [(i, j) for i in range(n+2) for j in range(i)]
        pairs = r.sample(pairs, r.randint(1, len(pairs)))
        M = [(a, b, rob_section(r), True, True) for a, b in pairs]
        f = ST.SimpleTruss([list(x) for x in X], [list(p) for p in pairs], [m[2] for m in M], truss_type="steel")
        supp = {}
        for i in r.sample(range(n+2), r.randint(1, n+2)):
            c, d = r.choice([(XYHingedSupport, (0, 1)), (XHingedSupport, (0,)), (YHingedSupport, (1,))])
            f.add(c(f.nodes[i]))
            supp[i] = FREE[d]
        desc = dict(X=X, pairs=pairs)
        tag = (n, len(M))
    with scratch() as d:
        name, path = fname(r, d)
        mon.case(dict(which=which, name=name.replace(d, "D").replace(os.path.basename(d), "d"), **desc))
        f.to_robot(name) if r.random() < 0.5 else f.to_robot(filename=name)
        mon.ok("robot header", os.path.exists(path), "file %s not written for %s" % (os.path.basename(path), name.replace(d, "")))
        if not os.path.exists(path):
            return
        data = read_robot(path)
    check_robot(mon, data, path, X, M, supp)
    mon.note("robot:"+which)
    mon.nontrivial((which,)+tag+(tuple(sorted(supp.items())),))


# ---------------------------------------------------------------- Abaqus
def read_inp(path, depth=0):
    """[(keyword, parameters, lines)] with included files in place"""
    out = []
    for ln in open(path):
        ln = ln.rstrip("\n")
        if ln.startswith("**") or not ln.strip():
            continue
        if ln.startswith("*"):
            w = [p.strip() for p in ln[1:].split(",")]
            par = {p.split("=")[0].strip().lower(): p.split("=")[1].strip() if "=" in p else True for p in w[1:]}
            if w[0].lower() == "include":
                out += read_inp(par["input"], depth+1)
            else:
                out.append((w[0].lower(), par, []))
        else:
            out[-1][2].append(ln)
    return out


def ints(lines):
    return [int(v) for l in lines for v in l.split(",") if v.strip()]


def outline(mon, lines, H, B, t, name):
    n = int(lines[0].split(",")[0])
    v = [float(x) for x in lines[0].split(",")[1:]]
    pts, th = [v[0:2], v[2:4]], [v[4]]
    for l in lines[1:-1]:
        w = [float(x) for x in l.split(",")]
        pts.append(w[:2])
        th.append(w[2])
    P = np.array(pts)*1e3
    R = SHS(H, t).R if H == B else RHS(H, B, t).R
    mon.ok("section outline", n == len(th) == len(pts)-1, "%d segments, %d lines" % (n, len(th)))
    mon.close("section outline", [x*1e3 for x in th], [t]*len(th), 0, 1e-3, name)
    mon.close("section outline", [P[:, 0].max(), -P[:, 0].min(), P[:, 1].max(), -P[:, 1].min()], [(B-t)/2]*2+[(H-t)/2]*2, 0, 2e-3, name)
    mon.close("section outline", P[0], P[-1], 0, 2e-3, name)
    per = np.hypot(*np.diff(P, axis=0).T).sum()
    mon.close("section outline", per, 2*(H+B-4*R)+32*(R-t/2)*math.sin(math.radians(11.25)), 0, 0.1, name)
    x, y = P.T
    area = 0.5*abs(np.dot(x[:-1], y[1:])-np.dot(x[1:], y[:-1]))
    rm = R-t/2
    mon.close("section outline", area, (H-t)*(B-t)-4*rm**2+8*rm**2*math.sin(math.radians(22.5)), 1e-3, 0, name)
    mon.close("section outline", [float(q) for q in lines[-1].split(",")], [0, 1, 0], 0, 0, "direction")


def check_abaqus(mon, items, t, secs, pinned, ecc, opts, included, sets, part):
    """secs: {element: section or None}, pinned: {element: (start, end)} of included members, ecc: {element: slave node}, sets: {name: elements}"""
    fem = t.fem
    kw = {}
    for k, p, l in items:
        kw.setdefault(k, []).append((p, l))
    mon.ok("abaqus nodes", len(kw["node"]) == 1 and kw["part"][0][0]["name"] == part, "parts")
    N = {int(l.split(",")[0]): [float(x) for x in l.split(",")[1:]] for l in kw["node"][0][1]}
    mon.ok("abaqus nodes", sorted(N) == list(range(1, len(fem.nodes)+1)), "node numbers")
    for i, n in enumerate(fem.nodes):
        mon.close("abaqus nodes", N.get(i+1, [np.nan]*3), [n.x*1e-3, 0, n.y*1e-3], 0, 1e-9, "node %d" % i)
    nid = {n: i+1 for i, n in enumerate(fem.nodes)}
    eid = {e: i+1 for i, e in enumerate(fem.elements)}
    E = {}
    for l in kw["element"][0][1]:
        w = ints([l])
        mon.ok("abaqus elements", w[0] not in E, "element %d twice" % w[0])
        E[w[0]] = tuple(w[1:])
    want = {eid[e]: (nid[e.nodes[0]], nid[e.nodes[1]]) for e in fem.elements if e not in ecc}
    mon.ok("abaqus elements", E == want and kw["element"][0][0]["type"] == "B31", "%s, wanted %s" % (sorted(set(E.items()) ^ set(want.items()))[:4], len(want)))
    S = {}
    for p, l in kw.get("elset", []):
        mon.ok("abaqus sets", p["elset"] not in S, "set %s twice" % p["elset"])
        S[p["elset"]] = ints(l)
        mon.ok("abaqus sets", all(len(q.split(",")) <= 16 for q in l) or p["elset"] in included, "more than 16 per line")
    for n, els in sets.items():
        mon.ok("abaqus sets", sorted(S.get(n, [])) == sorted(eid[e] for e in els), "set %s: %s, wanted %s" % (n, S.get(n), sorted(eid[e] for e in els)))
    # sections
    sec = {}
    for p, l in kw.get("beam section", []):
        mon.ok("abaqus sections", p["elset"] not in sec and p["elset"] in S and p["section"] == "ARBITRARY", "section of set %s" % p["elset"])
        sec[p["elset"]] = (p["material"], l)
    mats = {p["name"] for p, l in kw.get("material", [])}
    mon.ok("abaqus materials", len(mats) == len(kw.get("material", [])) and all(m in mats for m, _ in sec.values()) and len(mats) == len(sec), "%s for %s" % (sorted(mats), sorted(sec)))
    for p, l in kw.get("elastic", []):
        mon.close("abaqus materials", [float(x) for x in l[0].split(",")], [210e9, 0.3], 1e-9, 0)
    for p, l in kw.get("density", []):
        mon.close("abaqus materials", float(l[0].split(",")[0]), 7850, 1e-9, 0)
    mon.ok("abaqus materials", len(kw.get("elastic", [])) == len(mats) == len(kw.get("density", [])), "data of materials")
    owner = {}
    for n in sec:
        for i in S.get(n, []):
            owner.setdefault(i, []).append(n)
    done = set()
    for e, s in secs.items():
        o = owner.get(eid[e], [])
        if s is None:
            mon.ok("abaqus sections", not o, "element %d has section of %s" % (eid[e], o))
            continue
        mon.ok("abaqus sections", len(o) == 1, "element %d is in %s" % (eid[e], o))
        if o and (o[0], id(s)) not in done:
            done.add((o[0], id(s)))
            outline(mon, sec[o[0]][1], float(s.H), float(s.B), float(s.T), o[0])
    # releases
    for i, n in enumerate(("S1Release", "S2Release")):
        w = sorted(eid[e] for e, p in pinned.items() if p[i])
        mon.ok("abaqus releases", sorted(S.get(n, [])) == w, "%s: %s, wanted %s" % (n, S.get(n), w))
    rel = [x.replace(" ", "") for x in kw["release"][0][1]]
    mon.ok("abaqus releases", rel == ["S1Release,S1,M1", "S2Release,S2,M1"], "%s" % rel)
    # node sets
    NS = {}
    for p, l in kw.get("nset", []):
        mon.ok("abaqus sets", p["nset"] not in NS, "node set twice")
        NS[p["nset"]] = ints(l)
    slaves = {nid[n] for n in ecc.values()}
    mon.ok("abaqus eccentricities", sorted(NS["BC_Y_symm_nodes"]) == sorted(set(N)-slaves), "nodes with out of plane support")
    mpc = sorted((int(l[0].split(",")[1].split(".")[1]), int(l[0].split(",")[2].split(".")[1])) for p, l in kw.get("mpc", []))
    w = sorted((nid[s], nid[e.nodes[0] if e.nodes[1] is s else e.nodes[1]]) for e, s in ecc.items())
    mon.ok("abaqus eccentricities", mpc == w, "%s, wanted %s" % (mpc, w))
    d = [abs(n.x-opts.x_monitor) for n in fem.nodes]
    m = NS["Monitored_Nodes"]
    mon.ok("abaqus monitored", len(m) == len(set(m)) == min(opts.n_monitored, len(d)) and all(1 <= i <= len(d) for i in m), "%s" % m)
    if all(1 <= i <= len(d) for i in m):
        mon.close("abaqus monitored", sorted(d[i-1] for i in m), sorted(d)[:len(m)], 0, 1e-9, "nodes %s" % m)
    cls = {XYHingedSupport: "hinged", YHingedSupport: "y_supp", XHingedSupport: "x_supp", FixedSupport: "fixed"}
    w = {}
    for s in t.supports.values():
        w.setdefault(cls[type(s)], []).append(nid[s.node.fem_node])
    code = {"hinged": "PINNED", "fixed": "ENCASTRE", "y_supp": "3", "x_supp": "XSYMM"}
    for n in code:
        mon.ok("abaqus supports", sorted(NS.get(n, [])) == sorted(w.get(n, [])), "%s: %s, wanted %s" % (n, NS.get(n), w.get(n)))
    b = dict(x.replace(" ", "").split(",", 1) for p, l in kw.get("boundary", []) for x in l)
    mon.ok("abaqus supports", {k: v for k, v in b.items() if k in code} == {k: code[k] for k in w}, "%s" % b)
    for n, els in opts.load_elsets.items():
        mon.ok("abaqus sets", sorted(S.get(n, [])) == sorted(eid[e] for e in els), "load set %s" % n)
    for n, nds in opts.load_nsets.items():
        mon.ok("abaqus sets", sorted(NS.get(n, [])) == sorted(nid[x] for x in nds), "load set %s" % n)


def truss_expect(t, P, model):
    secs, pinned, ecc, sets = {}, {}, {}, {}
    L2 = 0.5*(t.nodes_x[1]+t.nodes_x[0]) if hasattr(t, "nodes_x") else None
    for m in t.top_chord:
        secs.update({e: P["secs"][0] for e in m.fem_elements})
    for m in t.bottom_chord:
        secs.update({e: P["secs"][1] for e in m.fem_elements})
    for k, m in t.braces.items():
        secs.update({e: P["secs"][2] for e in m.fem_elements})
        els = m.fem_elements
        sets["B%s" % k] = els
        if all(isinstance(e, Rod) for e in els):
            pinned.update({e: (True, True) for e in els})
        else:
            for i, e in enumerate(els):
                pinned[e] = (i == 0, i == len(els)-1)
    gaps = {"top": [], "bottom": []}
    for j in t.joints.values():
        fe = getattr(j, "fem_elements", {})
        if not isinstance(fe, dict):
            continue
        if fe.get("gap") is not None:
            g = fe["gap"] if isinstance(fe["gap"], list) else [fe["gap"]]
            gaps[j.chord] += g
            secs.update({e: P["secs"][0 if j.chord == "top" else 1] for e in g})
        for n, b in (("left_ecc", "left_brace"), ("right_ecc", "right_brace")):
            e = fe.get(n)
            if e is not None:
                nb = getattr(j, b).fem_nodes
                s = [x for x in e.nodes if x in nb]
                ecc[e] = s[0] if s else None
    if len(gaps["top"]) > 1:
        sets["TopChordGaps"] = gaps["top"]
    if len(gaps["bottom"]) > 1:
        sets["BottomChordGaps"] = gaps["bottom"]
    return secs, pinned, ecc, sets


def opts_(r, t):
    if r.random() < 0.5:
        return None, AbaqusOptions()
    o = AbaqusOptions(x_monitor=r.uniform(0, 2e4), n_monitored=r.choice([1, 2, 3, 5]))
    if r.random() < 0.5:
        o.load_elsets["QL"] = r.sample(t.fem.elements, r.randint(1, len(t.fem.elements)))
    if r.random() < 0.5:
        o.load_nsets["PL"] = r.sample(t.fem.nodes, r.randint(1, len(t.fem.nodes)))
    return o, o


def w_abaqus(r, mon):
    """several trusses and frames in one program"""
    ts = []
    for _ in range(r.choice([1, 2, 2])):
        if r.random() < 0.75:
            P = T.params(r)
            P["secs"] = [T.chord(r), T.chord(r), SHS(*r.choice(T.BR))]
            t = T.build(P)
            models = ["no_eccentricity"]
            if P["dx"] > 0 and P["ev"] and P["top"] != "KT":
                models += ["ecc_elements"]*3
            t._model = r.choice(models)
            t.generate_fem(model=t._model)
            ts.append(("truss", t, P))
        else:
            S = G.topology(r)
            for m in S.members:
                m["sec"] = T.chord(r)
            S.supports = [(i, list(r.choice([(0, 1, 2), (0, 1), (0,), (1,)]))) for i in r.sample(range(len(S.nodes)), r.randint(1, len(S.nodes)))]
            f, nodes, mems = G.build_members(S)
            f.generate_fem()
            ts.append(("frame", f, S))
    mon.case(dict(ts=[(k, {a: (b if a != "secs" else [repr(s) for s in b]) for a, b in P.items()}, t._model) if k == "truss" else (k, P.nodes, [m["n"] for m in P.members]) for k, t, P in ts]))
    log, kept = [], {}
    with scratch() as d:
        for step in range(r.choice([1, 2, 3])):
            kind, t, P = r.choice(ts)
            given, o = opts_(r, t)
            if kept.get(id(t)) is not None and r.random() < 0.5:
                given = o = kept[id(t)]
            kept[id(t)] = given
            name, part = r.choice(["Raami", "T1"]), r.choice(["Truss", "P"])
            log.append((kind, given is None))
            if kind == "truss":
                if r.random() < 0.3 and step:
                    P["secs"][2] = SHS(*r.choice(T.BR))
                    for b in t.braces.values():
                        b.cross_section = P["secs"][2]
                secs, pinned, ecc, sets = truss_expect(t, P, t._model)
            else:
                secs = {e: None for m in t.members.values() for e in m.fem_elements}
                pinned, ecc, sets = {}, {}, {}
                o.elsets = {}
                if r.random() < 0.6:
                    given = o = given or AbaqusOptions()
                    k = r.randrange(len(t.members))
                    grp = [m for m in t.members.values() if repr(m.cross_section) == repr(t.members[k].cross_section)]
                    sets = {"Grp": [e for m in grp for e in m.fem_elements]}
                    o.elsets = {n: list(v) for n, v in sets.items()}
                    for m in grp:
                        secs.update({e: m.cross_section for e in m.fem_elements})
            kw = {} if given is None else {"options": given}
            before = {k: list(v) if isinstance(v, (list, dict)) else v for k, v in vars(o).items()}
            if r.random() < 0.5:
                t.to_abaqus(d, name, part, **kw)
            else:
                t.to_abaqus(target_dir=d, filename=name, partname=part, **kw)
            items = read_inp(os.path.join(d, name+"_ABAQUS", name+".inp"))
            check_abaqus(mon, items, t, secs, pinned, ecc, o, [], sets, part)
            after = {k: list(v) if isinstance(v, (list, dict)) else v for k, v in vars(o).items()}
            mon.ok("options", before == after and all(v in ([], {}, 0, 1) for v in vars(AbaqusOptions()).values()), "options of the caller changed: %s" % [k for k in before if before[k] != after[k]])
    mon.note("abaqus:%d" % len(log))
    mon.nontrivial((tuple(log), tuple((k, t._model if k == "truss" else P.fam, len(t.fem.elements)) for k, t, P in ts)))


def w_outline(r, mon):
    t = r.choice([3, 4, 5, 6, 8, 10, 12.5])
    H = r.choice([100, 120, 150, 200, 250, 300])
    B = r.choice([100, 120, 150, 200, 250, 300])
    s = SHS(H, t) if H == B else RHS(H, B, t)
    if min(H, B)/2 < s.R+2*t:
        raise vm.CaseSkip("thick")
    mon.case(dict(H=H, B=B, t=t))
    with scratch() as d:
        s.abaqus(os.path.join(d, "a.txt"), matname="M", setname="S")
        s.abaqus(os.path.join(d, "a.txt"), "M2", "S2", "a") if r.random() < 0.5 else None
        it = read_inp(os.path.join(d, "a.txt"))
    for k, (kw, p, l) in enumerate(it):
        mon.ok("section outline", kw == "beam section" and p["elset"] == ["S", "S2"][k] and p["material"] == ["M_Mat", "M2_Mat"][k], "%s" % p)
        outline(mon, l, H, B, t, repr(s))
    mon.nontrivial((H, B, t))


def read_str(path):
    """sections of a Frame2D file"""
    out, cur = {"top": []}, "top"
    for ln in open(path):
        w = ln.split()
        if not w:
            continue
        if w[0] in ("NODes", "ELEments", "PROperties", "SUPports", "RELeases", "UNIts", "LOAds", "END") and len(w) == 1:
            if "LOAds" in out and w[0] != "END":
                cur = "load " + w[0]
            else:
                cur = w[0]
            out[cur] = []
        else:
            out[cur].append(ln.rstrip("\n"))
    return out


def kv(words):
    d = {}
    for w in words:
        k, v = w.split("=")
        d[k] = d.get(k, 0.0) + float(v)
    return d


def w_frame2d(r, mon):
    """frames of Frame2D in Robot files, one frame or several parallel ones"""
    import metku.frame2d.frame2d as FD
    U = r.uniform
    H, nb, ns = r.choice([3000, 4500, 3600]), r.randint(1, 3), r.randint(1, 2)
    L = [r.choice([5000, 6000, 7500]) for _ in range(nb)]
    xs = [sum(L[:i]) for i in range(nb + 1)]
    names = {"HE 240 A": "HEA240", "HE 200 B": "HEB200", "HE 120 M": "HEM120", "IPE 300": "IPE 300", "RHS 150X100X6": "RRHS 150X100X6.0", "RHS 120X180X7.1": "RRHS 120X180X7.1", "SHS 120X5": "RRHS 120X120X5.0",
             "SHS 160X160X8": "RRHS 160X160X8.0", "SHS 100X100X7.1": "RRHS 100X100X7.1"}
    f = FD.Frame2D()
    M = []

    def add(cls, a, b, **kw):
        if r.random() < 0.3:
            a, b = b, a
        pr = r.choice(sorted(names))
        m = cls([list(a), list(b)], profile=pr, **kw)
        f.add(m)
        M.append([m, tuple(a), tuple(b), pr, cls is FD.SteelBeam, [1e20, 1e20], []])
        for i in (0, 1):
            if r.random() < 0.3:
                S = M[-1][5][i] = r.choice([10 ** U(8, 9.9), 10 ** U(10, 12)])
                setattr(m, "Sj%d" % (i + 1), S)
    for i, x in enumerate(xs):
        for k in range(ns):
            add(FD.SteelColumn, (x, k * H), (x, (k + 1) * H))
    for i in range(nb):
        for k in range(1, ns + 1):
            add(FD.SteelBeam, (xs[i], k * H), (xs[i + 1], k * H))
    supp = {}
    for i, x in enumerate(xs):
        cls, free = r.choice([(FD.FixedSupport, ()), (FD.XYHingedSupport, ("RY",)), (FD.YHingedSupport, ("UX", "RY")), (FD.XHingedSupport, ("UZ", "RY"))][:2 if i == 0 else 4])
        f.add(cls([x, 0]))
        supp[(float(x), 0.0)] = free
    line, pts = [], []
    for _ in range(r.randint(0, 4)):
        m = r.choice(M)
        q = U(-40, 40)
        q = [q, r.choice([q, q, q, 0.0, -q, U(-40, 40)])] if r.random() < 0.9 else [0.0, q]
        d, fac = r.choice("xyy"), r.choice([1.0, 1.35, 1.5, U(-1, 2)])
        f.add(FD.LineLoad(m[0], q, d, f=fac))
        line.append((m, [fac * v for v in q], d))
    for _ in range(r.randint(0, 4)):
        m = r.choice(M)
        c = r.choice([m[1], m[2]])
        v = [r.choice([0, U(-5e4, 5e4)]), r.choice([0, U(-5e4, 5e4)]), r.choice([0, U(-5e7, 5e7)])]
        fac = r.choice([1.0, 1.0, 1.15, U(0.5, 2)])
        f.add(FD.PointLoad(list(c), v, f=fac))
        if any(v):
            pts.append((c, [fac * w for w in v]))
    calc = r.random() < 0.5
    nf, sp = r.choice([1, 1, 1, 2, 3]), r.choice([5000, 6000, 4250])
    mon.case(dict(xs=xs, storeys=ns, H=H, profiles=[m[3] for m in M], Sj=[m[5] for m in M], supports=repr(supp), line=[(M.index(l[0]), l[1], l[2]) for l in line], points=pts, calculated=calc, frames=nf, spacing=sp))
    with scratch() as d:
        if calc:
            f.generate()
            f.calculate(load_id=FD.LoadIDs.ULS) if line or pts else None
        for rep in range(r.choice([1, 2])):
            if rep:
                m = r.choice(M)
                m[3] = r.choice(sorted(names))
                m[0].profile = m[3]
                if calc and line and r.random() < 0.5:
                    f.calculate(load_id=FD.LoadIDs.ULS)
            name = "f%d" % rep
            f.to_robot(name, *(() if nf == 1 else (nf, sp)))
            F = read_str(name + ".str")
            check_frame2d(mon, F, M, supp, line, pts, nf, sp, names)
    mon.nontrivial(("frame2d", nb, ns, nf, calc, len(line), len(pts)))


def check_frame2d(mon, F, M, supp, line, pts, nf, sp, names):
    mon.ok("robot header", any("ROBOT97" in t for t in F["top"]) and ("END" in F) and (nf == 1 or any("FRAme SPAce" in t for t in F["top"])), "%s" % F["top"])
    X = {}
    for ln in F["NODes"]:
        w = ln.split()
        c = list(map(float, w[1:]))
        X[int(w[0])] = (c[0], c[-1], c[1] if nf > 1 else 0.0)
        mon.ok("robot nodes", len(c) == (2 if nf == 1 else 3), ln)
    want = {(float(p[0]), float(p[1]), float(i * sp)) for m in M for p in (m[1], m[2]) for i in range(nf)}
    mon.ok("robot nodes", len(X) == len(F["NODes"]) and sorted(X.values()) == sorted(want), "%s, wanted %s" % (sorted(X.values()), sorted(want)))
    E = {int(l.split()[0]): tuple(X.get(int(k)) for k in l.split()[1:]) for l in F["ELEments"]}
    el = [(m, tuple((float(p[0]), float(p[1]), float(i * sp)) for p in (m[1], m[2]))) for i in range(nf) for m in M]
    num = {}
    for m, e in el:
        k = [j for j, v in E.items() if set(v) == set(e)]
        mon.ok("robot elements", len(k) == 1, "member %s is the elements %s" % (e, k))
        if k:
            num[e] = k[0]
    mon.ok("robot elements", len(E) == len(el) == len(F["ELEments"]), "%d elements, wanted %d" % (len(E), len(el)))
    mon.ok("robot header", any(t.split()[:4] == ["NODes", str(len(X)), "ELEments", str(len(E))] for t in F["top"]), "counts %s" % F["top"])
    pr = {}
    for a, b in zip(F["PROperties"][::2], F["PROperties"][1::2]):
        pr[int(b.split()[0])] = (a.strip().strip('"'), " ".join(b.split()[1:]))
    for m, e in el:
        mon.ok("robot profiles", pr.get(num.get(e)) == (str(m[0].material), names[m[3]]), "%s: %s for %s" % (e, pr.get(num.get(e)), m[3]))
    got = {X.get(int(l.split()[0])): set(l.split()[1:]) for l in F["SUPports"]}
    mon.ok("robot supports", got == {(*c, float(i * sp)): set(v) for c, v in supp.items() for i in range(nf)}, "%s, wanted %s" % (got, supp))
    got = {}
    for l in F["RELeases"]:
        w = re.match(r"\s*ELEments\s*(\d+)\s*ORIgin RY Hy=(\S+)\s*END RY Hy=(\S+)\s*$", l)
        mon.ok("robot releases", w is not None, l)
        if w:
            got[int(w[1])] = (float(w[2]), float(w[3]))
    beams = [(m, e) for m, e in el if m[4]]
    mon.ok("robot releases", sorted(got) == sorted(num[e] for m, e in beams if e in num), "%s" % got)
    for m, e in beams:
        o = E.get(num.get(e), ())
        S = [min(v, 1e10) for v in m[5]]
        mon.close("robot releases", got.get(num.get(e), (np.nan,) * 2), S if o == e else S[::-1], 1e-9, 0, "rotational stiffnesses of the ends")
    # loads of each element and node
    got = {}
    for l in F.get("load ELEments", []):
        w = l.split()
        k = int(w[0])
        if "TILl" in l:
            q = re.findall(r"(P[XZ])=(\S+)", l)
            x = re.findall(r"\bX=(\S+)", l)
            mon.ok("robot loads", len(q) == 2 and q[0][0] == q[1][0] and list(map(float, x)) == [0.0, 1.0] and "RElative" in l, l)
            got.setdefault(k, []).append((q[0][0], float(q[0][1]), float(q[1][1])))
        else:
            for n, v in kv(w[1:]).items():
                got.setdefault(k, []).append((n, v, v))
    for m, e in el:
        o = E.get(num.get(e), ())
        w = [("PZ" if d == "y" else "PX", *(q if o == e else q[::-1])) for mm, q, d in line if mm is m]
        g = got.get(num.get(e), [])
        mon.ok("robot loads", [v[0] for v in sorted(g)] == [v[0] for v in sorted(w)], "%s: %s, wanted %s" % (e, g, w))
        mon.close("robot loads", [v[1:] for v in sorted(g)], [v[1:] for v in sorted(w)], 1e-9, 1e-9, "line loads of %s" % (e,))
    got = {}
    for l in F.get("load NODes", []):
        w = l.split()
        for n, v in kv(w[1:]).items():
            d = got.setdefault(X.get(int(w[0])), {})
            d[n] = d.get(n, 0.0) + v
    want = {}
    for c, v in pts:
        for i in range(nf):
            d = want.setdefault((float(c[0]), float(c[1]), float(i * sp)), {})
            for n, x in zip(("FX", "FZ", "MY"), v):
                if x:
                    d[n] = d.get(n, 0.0) + x
    mon.ok("robot loads", {k: sorted(v) for k, v in got.items()} == {k: sorted(v) for k, v in want.items()}, "%s, wanted %s" % (got, want))
    for k, v in want.items():
        mon.close("robot loads", [got.get(k, {}).get(n, np.nan) for n in sorted(v)], [v[n] for n in sorted(v)], 1e-9, 1e-9, "loads of node %s" % (k,))


WORKLOADS = {"frame2d": (w_frame2d, 60, 1500), "robot": (w_robot, 400, 8000), "abaqus": (w_abaqus, 250, 5000), "outline": (w_outline, 100, 500)}

if __name__ == "__main__":
    vm.main(globals())
