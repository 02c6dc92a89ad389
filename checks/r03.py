"""R03: member verification and profile selection in frames."""
import os, sys, math, copy
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vm
sys.path.insert(0, vm.VERIF)
import numpy as np
import raamigen as G
import trussgen as T
from metku.structures.steel.steel_member import SteelMember
from metku.sections.steel import catalogue as cat
from metku.sections.steel.ISection import IPE, HEA, HEB
from metku.sections.steel.RHS import RHS, SHS
from metku.sections.steel.CHS import CHS
from metku.raami.frame_member import MemberGroup

PROPERTY = "R03"
RULE = ("one case is one random frame with random load cases, buckling length factors, sway flags, allowable utilizations, member groups and (mirrored frames) symmetry pairs; "
        "member utilizations after analysis are compared with separately built member objects given the reference solver's forces, and profile selection (single member, group, symmetry pair, whole frame) "
        "with an independent search over the catalogue driven by the reference solver. Non-trivial: distinct (family, profile types, operation, outcome).")
MONITORS = ["utilization", "resistance flag", "member optimum", "changed flag", "frame optimum", "group profile", "utilization after optimisation"]

FAMILY = {"IPE": "ipe_profiles", "HEA": "hea_profiles", "HEB": "heb_profiles", "RHS": "rhs_profiles", "SHS": "shs_profiles", "CHS": "chs_profiles"}
_CACHE = {}


def family(sec):
    return next(k for k, c in (("IPE", IPE), ("HEA", HEA), ("HEB", HEB), ("SHS", SHS), ("RHS", RHS), ("CHS", CHS)) if isinstance(sec, c))


def catalogue(fam):
    """[(profile, class in compression)] in catalogue order"""
    if fam not in _CACHE:
        out = []
        for k, v in getattr(cat, FAMILY[fam]).items():
            if fam == "RHS" and v["t"] < 3.0:
                continue
            s = {"IPE": lambda: IPE(int(v["h"]), catalogue=True), "HEA": lambda: HEA(int(k.split()[1]), catalogue=True), "HEB": lambda: HEB(int(k.split()[1]), catalogue=True),
                 "RHS": lambda: RHS(v["h"], v["b"], v["t"]), "SHS": lambda: SHS(v["h"], v["t"]), "CHS": lambda: CHS(v["d"], v["t"])}[fam]()
            s.material = "S355"
            s.Ned = -1.0
            s.class_in_compression = s.section_class()
            if s.class_in_compression > 3:
                continue
            out.append(s)
        _CACHE[fam] = out
    return _CACHE[fam]


def props(s):
    return np.array([s.A, s.I[0], s.I[1], s.h, s.b])


def fresh_util(S, m, sec, forces, lids):
    a, b = np.array(S.nodes[m["n"][0]]), np.array(S.nodes[m["n"][1]])
    out = {}
    for lid in lids:
        mm = SteelMember(copy.copy(sec), float(np.linalg.norm(b - a)), Lcr=list(m["lcr"]), mtype=m["mtype"])
        N, V, M = forces[lid]
        for k in range(len(N)):
            mm.add_section(ned=N[k], vzed=V[k], myed=M[k], loc=k / (len(N) - 1))
        out[lid] = float(mm.design(sway=m["sway"]))
    return out


def select(S, group, initial, forces, lids, umax=1.0, bmin=10, bmax=1e5, lmax=5.0, cmax=3):
    """first profile of the family of `initial` that suits every member of group; (section, found)"""
    last = None
    for sec in catalogue(family(initial)):
        if not bmin <= sec.b <= bmax:
            continue
        if sec.class_in_compression > cmax:
            continue
        ok = True
        for k in group:
            m = S.members[k]
            a, b = np.array(S.nodes[m["n"][0]]), np.array(S.nodes[m["n"][1]])
            L = float(np.linalg.norm(b - a))
            for i in (0, 1):
                lam = m["lcr"][i] * L / math.pi * math.sqrt(sec.A * sec.fy / (210e3 * sec.I[i]))
                if abs(lam - lmax) < 1e-6:
                    raise vm.CaseSkip("tie")
                ok = ok and lam < lmax
        if not ok:
            continue
        last = sec
        for k in group:
            u = fresh_util(S, S.members[k], sec, forces[k], lids)
            for v in u.values():
                if abs(v - umax) < 2e-5:
                    raise vm.CaseSkip("tie")
                ok = ok and v < umax
            if not ok:
                break
        if ok:
            return sec, True
    return last, False


def ref_forces(S):
    cases = {}
    for l in S.loads:
        cases.setdefault(l["id"], []).append((l, 1.0))
    ref, _ = G.reference(S, cases)
    return [{lid: (res[k][1], res[k][2], res[k][3]) for lid, res in ref.items()} for k in range(len(S.members))], sorted(cases)


def setup(r, mon, S, types=None):
    for m in S.members:
        m["lcr"] = [r.choice([1.0, 0.9, r.uniform(0.5, 2)]), r.choice([1.0, 0.5, r.uniform(0.3, 1)])]
        m["sway"] = r.random() < 0.3
        while isinstance(m["sec"], CHS) and r.random() < 0.5:
            m["sec"] = G.section(r)
        m["sec"].material = "S355"
    return S


def build(S, r):
    f, nodes, mems = G.build_members(S, r)
    for m, mm in zip(S.members, mems):
        mm.lcr = list(m["lcr"])
        mm.sway = m["sway"]
        mm.allowable_utilization = m.get("allow", 1.0)
    for l in S.loads:
        f.add(G.make_load(S, l, nodes, mems))
    f.generate_fem()
    return f, nodes, mems


def describe(S):
    return dict(family=S.fam, nodes=S.nodes, members=[(m["n"], repr(m["sec"]), m["nel"], m["hinges"], m["mtype"], m["lcr"], m["sway"]) for m in S.members],
                supports=S.supports, loads=S.loads)


def near_axis(forces):
    """are there forces so small that a sign or a class choice depends on rounding?"""
    N = np.concatenate([f[lid][0] for f in forces for lid in f])
    M = np.concatenate([f[lid][2] for f in forces for lid in f])
    return np.any((np.abs(N) < 1e-6 * np.max(np.abs(N))) & (np.abs(N) > 0)) or np.max(np.abs(N)) < 1


def w_design(r, mon):
    """utilizations after analysis, with edits in between"""
    S = setup(r, mon, G.topology(r))
    for m in S.members:
        m["allow"] = r.choice([1.0, r.uniform(0.2, 1.5)])
    G.gen_loads(r, S, r.sample([0, 1, 2, 5], r.choice([1, 2])))
    mon.case(describe(S))
    f = None
    forces, lids = ref_forces(S)
    f, nodes, mems = build(S, r)
    for step in range(r.randint(1, 3)):
        forces, lids = ref_forces(S)
        if r.random() < 0.6:
            f.structural_analysis("all", "REM")
            done = lids
        else:
            done = r.sample(lids, r.randint(1, len(lids)))
            for lid in done:
                f.structural_analysis(lid, "REM")
        over = 0
        for k, (m, mm) in enumerate(zip(S.members, mems)):
            # forces of the frame (they are decided by R01) so that rounding of zero forces is the same in both evaluations
            fo = {lid: (mm.nodal_forces[lid]["N"], mm.nodal_forces[lid]["Vz"], mm.nodal_forces[lid]["My"]) for lid in done}
            u = fresh_util(S, m, m["sec"], fo, done)
            for lid in done:
                mon.close("utilization", mm.utilization[lid], u[lid], 1e-9, 1e-9, "%s member %d case %s" % (S.fam, k, lid))
            # the flag belongs to the case designed last
            last = max(done, key=lambda i: list(f.load_cases).index(i)) if done is lids else done[-1]
            if abs(u[last] - m["allow"]) > 1e-6:
                mon.ok("resistance flag", mm.resistance_check == (u[last] <= m["allow"]), "%s member %d u=%s allowed %s flag %s" % (S.fam, k, u[last], m["allow"], mm.resistance_check))
            over += any(v > 1 for v in u.values())
        mon.nontrivial((S.fam, step, over, len(lids), len(S.members)))
        op = r.choice(["section", "move", "lcr", "sway", "none"])
        k = r.randrange(len(mems))
        if op == "section":
            S.members[k]["sec"] = G.section(r)
            S.members[k]["sec"].material = r.choice(["S235", "S355", "S420"])
            mems[k].cross_section = S.members[k]["sec"]
        elif op == "move":
            i, ax = r.randrange(len(nodes)), r.randrange(2)
            S.nodes[i][ax] += r.uniform(-120, 120)
            setattr(nodes[i], "xy"[ax], S.nodes[i][ax])
        elif op == "lcr":
            S.members[k]["lcr"] = [r.uniform(0.5, 2), r.uniform(0.5, 2)]
            mems[k].lcr = list(S.members[k]["lcr"])
        elif op == "sway":
            S.members[k]["sway"] = mems[k].sway = not mems[k].sway


def frame_forces(mm, lids):
    return {lid: (mm.nodal_forces[lid]["N"], mm.nodal_forces[lid]["Vz"], mm.nodal_forces[lid]["My"]) for lid in lids}


def same(a, b):
    return np.allclose(props(a), props(b), rtol=1e-9)


def w_member(r, mon):
    """profile selection of one member or group at fixed forces"""
    S = setup(r, mon, G.topology(r))
    G.gen_loads(r, S, r.sample([0, 1, 2, 5], r.choice([1, 2, 3])))
    sc = 10 ** r.uniform(-2, 0.8)
    for l in S.loads:
        l["f"] *= sc
    mon.case(describe(S))
    forces, lids = ref_forces(S)
    f, nodes, mems = build(S, r)
    f.structural_analysis("all", "REM")
    for _ in range(2):
        group = [r.randrange(len(mems))]
        if r.random() < 0.4 and len(mems) > 1:
            group = r.sample(range(len(mems)), r.randint(2, min(3, len(mems))))
        fo = {k: frame_forces(mems[k], lids) for k in group}
        kw = {}
        if r.random() < 0.3:
            kw = dict(max_utility=r.uniform(0.5, 0.95))
        elif r.random() < 0.3:
            kw = dict(bmin=r.uniform(40, 150))
        elif r.random() < 0.2:
            kw = dict(bmax=r.uniform(120, 400))
        elif r.random() < 0.2:
            kw = dict(max_slenderness=r.uniform(0.6, 2))
        initial = S.members[group[0]]["sec"]
        want, found = select(S, group, initial, fo, lids, kw.get("max_utility", 1.0), kw.get("bmin", 10), kw.get("bmax", 1e5), kw.get("max_slenderness", 5.0))
        if want is None or not found:
            if r.random() < 0.7:
                continue
        ptype = "CURRENT"
        if len(group) == 1:
            obj = mems[group[0]]
        else:
            obj = MemberGroup([mems[k] for k in group])
            obj.cross_section = initial
        got = obj.optimum_design(ptype, **kw)
        sec = obj.cross_section
        if found:
            mon.ok("member optimum", same(sec, want), "%s group %s %s got %s want %s" % (S.fam, group, kw, sec, want))
            mon.ok("changed flag", got == (not same(initial, sec)), "%s -> %s flag %s" % (initial, sec, got))
            for k in group:
                mon.ok("group profile", same(mems[k].cross_section, want) and mems[k].member.profile is mems[k].cross_section
                       and all(e.section is mems[k].cross_section for e in mems[k].fem_elements), "member %d" % k)
                u = fresh_util(S, S.members[k], want, fo[k], lids)
                for lid in lids:
                    mon.close("utilization after optimisation", mems[k].utilization[lid], u[lid], 1e-9, 1e-9, "member %d case %s %s" % (k, lid, want))
        mon.nontrivial((family(initial), len(group), found, tuple(kw), repr(want)))
        for k in group:
            S.members[k]["sec"] = mems[k].cross_section


def mirror(r):
    """portal or two-bay frame that is symmetric about a vertical axis"""
    S = G.Spec()
    S.fam, S.nodes, S.members, S.supports, S.loads, S.pairs = "symmetric", [], [], [], [], []
    w, h = r.uniform(3000, 9000), r.uniform(3000, 6000)
    off = r.choice([0.0, r.uniform(-9000, 9000)])
    rise = r.uniform(0, 1500)
    S.nodes = [[off - w, 0], [off + w, 0], [off - w, h], [off + w, h], [off, h + rise]]
    base = r.choice([[0, 1, 2], [0, 1]])
    S.supports = [(0, base), (1, base)]

    def mem(i, j, mt, sec, nel):
        S.members.append(dict(n=(i, j), sec=sec, nel=nel, hinges=[False, False], mtype=mt))
        return len(S.members) - 1
    c, b = G.section(r), G.section(r)
    n1, n2 = r.choice([2, 4]), r.choice([2, 4])
    order = [("column", 0, 2), ("beam", 2, 4), ("column", 1, 3), ("beam", 3, 4)]
    r.shuffle(order)
    idx = {}
    for mt, i, j in order:
        if r.random() < 0.2:
            i, j = j, i
        idx.setdefault(mt, []).append(mem(i, j, mt, c if mt == "column" else b, n1 if mt == "column" else n2))
    if r.random() < 0.3:
        S.nodes.append([off, 0])
        S.supports.append((5, [0, 1, 2]))
        mem(5, 4, "column", G.section(r), 2)
    S.pairs = [tuple(sorted(v)) for v in idx.values()]
    return S


def w_frame(r, mon):
    """optimisation of the whole frame"""
    symm = r.random() < 0.4
    S = setup(r, mon, mirror(r) if symm else G.topology(r))
    if symm:
        for a, b in S.pairs:
            for q in ("sec", "lcr", "sway"):
                S.members[b][q] = S.members[a][q]
    G.gen_loads(r, S, r.sample([0, 1, 2, 5], r.choice([1, 2])))
    sc = 10 ** r.uniform(-1, 0.5)
    for l in S.loads:
        l["f"] *= sc
    use_pairs = symm and r.random() < 0.7
    groups = []
    free = list(range(len(S.members)))
    if not use_pairs:
        for _ in range(r.choice([0, 1, 2])):
            if len(free) >= 2:
                g = r.sample(free, r.randint(1, min(3, len(free))))
                groups.append(g)
                free = [k for k in free if k not in g]
                for k in g:
                    S.members[k]["sec"] = S.members[g[0]]["sec"]
    mon.case(dict(describe(S), groups=groups, symmetry=use_pairs))
    init = [copy.copy(m["sec"]) for m in S.members]
    ref_forces(S)
    f, nodes, mems = build(S, r)
    if use_pairs:
        f.symmetry()
        got = {tuple(sorted((k, mems.index(m.symmetry_pair)))) for k, m in enumerate(mems) if m.symmetry_pair is not None}
        mon.ok("group profile", got == set(S.pairs), "symmetry pairs %s want %s" % (got, S.pairs))
    for i, g in enumerate(groups):
        f.member_groups["g%d" % i] = MemberGroup([mems[k] for k in g])
    f.optimize_members()
    got = [m.cross_section for m in mems]
    # emulate with the reference solver
    units = groups + ([list(p) for p in S.pairs] if use_pairs else [])
    units += [[k] for k in range(len(mems)) if not any(k in u for u in units)]
    conv = False
    for it in range(9):
        forces, lids = ref_forces(S)
        changed = False
        for u in units:
            cur = S.members[u[0]]["sec"]
            new, found = select(S, u, cur, {k: forces[k] for k in u}, lids)
            if not found:
                mon.nontrivial(("no profile", S.fam))
                raise vm.CaseSkip("no profile is sufficient")
            if not same(cur, new):
                changed = True
            for k in u:
                S.members[k]["sec"] = new
        if not changed:
            conv = True
            break
    for k in range(len(mems)):
        mon.ok("frame optimum", same(got[k], S.members[k]["sec"]), "%s member %d got %s want %s (initial %s, iterations %d converged %s)" % (S.fam, k, got[k], S.members[k]["sec"], init[k], it, conv))
    if conv:
        for k, m in enumerate(S.members):
            u = fresh_util(S, m, m["sec"], frame_forces(mems[k], lids), lids)
            for lid in lids:
                mon.close("utilization after optimisation", mems[k].utilization[lid], u[lid], 1e-6, 1e-6, "member %d case %s" % (k, lid))
                mon.ok("utilization after optimisation", mems[k].utilization[lid] <= 1.0, "member %d case %s %s" % (k, lid, mems[k].utilization[lid]))
    for u in groups + (S.pairs if use_pairs else []):
        mon.ok("group profile", len({repr(mems[k].cross_section) for k in u}) == 1, "group %s profiles %s" % (u, [mems[k].cross_section for k in u]))
    mon.nontrivial((S.fam, len(S.members), len(groups), use_pairs, conv, it))


def w_truss(r, mon):
    """optimisation of the members of a roof truss: chords as groups, braces one by one or as symmetric pairs"""
    P = T.params(r)
    P["nelb"], P["beams"], P["ndiv"] = 1, False, r.choice([2, 2, 3])
    P["ev"] = True
    t = T.build(P)
    if r.random() < 0.5:
        t.generate_uniform_load(r.uniform(-60, 20), "top", load_id=0)
        ids = [0]
    else:
        ids = r.sample([0, 1, 2], r.choice([1, 2]))
        for i in ids:
            t.generate_uniform_load(r.uniform(-60, -2) if r.random() < 0.8 else r.uniform(0, 20), r.choice(["top", "top", "bottom"]), load_id=i)
    pairs = r.random() < 0.5
    if pairs:
        t.symmetry()
    if r.random() < 0.4:
        t.top_chord_profile = T.chord(r)
    if r.random() < 0.4:
        t.bottom_chord_profile = T.chord(r)
    kw, U = {}, [1.0, 1.0, 1.0, 1.0]
    if r.random() < 0.6:
        U = [r.choice([1.0, r.uniform(0.5, 1.0)]) for _ in range(3)]
        U = U + [U[2] if len(ids) > 1 else r.choice([U[2], r.uniform(0.5, 1.0)])]
        C = [r.choice([1, 2, 2, 3]) for _ in range(3)]
        kw = dict(top={"material": "S355", "class": C[0], "utility": U[0]}, bottom={"material": "S355", "class": C[1], "utility": U[1]},
                  braces={"material": "S355", "class": C[2], "utility_tens": U[2], "utility_comp": U[3]})
    else:
        C = [2, 2, 2]
    limit = r.random() < 0.3
    if limit:
        kw["limit_width"] = True
    mems = list(t.members.values())
    S = G.Spec()
    S.fam, S.loads = "roof truss", []
    S.nodes = [[float(n.x), float(n.y)] for n in t.nodes]
    S.supports = [(t.nodes.index(s.node), list(s.dofs)) for s in t.supports.values()]
    S.members = [dict(n=tuple(t.nodes.index(n) for n in m.nodes), sec=copy.copy(m.cross_section), nel=m.num_elements, hinges=[False, False],
                      mtype="brace" if isinstance(m, T.TrussBrace) else "top_chord" if isinstance(m, T.TopChord) else "bottom_chord",
                      lcr=[1.0, 1.0] if isinstance(m, T.TrussBrace) else [0.9, 1.0], sway=False) for m in mems]
    for l in t.loads.values():
        S.loads.append(dict(kind="l", id=l.load_id, mem=mems.index(l.member), q=[float(v) for v in l.values], dir=l.direction, coords=l.coord_sys, f=l.f, ltype="live", name=None))
    mon.case(dict({k: repr(v) for k, v in P.items()}, util=U, cls=C, pairs=pairs, limit=limit, loads=[(l["id"], l["q"]) for l in S.loads][::4]))
    for m in mems:
        m.cross_section.material = "S355"
    for m in S.members:
        m["sec"].material = "S355"
    ref_forces(S)
    t.generate_fem("no_eccentricity")
    units = [[k for k, m in enumerate(S.members) if m["mtype"] == c] for c in ("top_chord", "bottom_chord")]
    done = set(units[0] + units[1])
    for k, m in enumerate(mems):
        if k in done:
            continue
        u = [k]
        if pairs and m.symmetry_pair is not None:
            u.append(mems.index(m.symmetry_pair))
        done.update(u)
        units.append(u)
    if pairs:
        for u in units[2:]:
            x = [sorted((round(S.nodes[i][0], 3), i in [t.nodes.index(n) for n in t.top_nodes]) for i in S.members[k]["n"]) for k in u]
            if len(u) == 2:
                mir = sorted((round(2 * P["L"] - a, 3), b) for a, b in x[1])
                mon.ok("group profile", all(abs(a[0] - b[0]) < 1e-2 and a[1] == b[1] for a, b in zip(x[0], mir)), "pair %s" % x)
            else:
                mon.ok("group profile", all(abs(a[0] - P["L"]) < 1e-2 for a in x[0]), "no pair for %s" % x)
    t.optimize_members(**kw)
    got = [m.cross_section for m in mems]
    conv = False
    for it in range(9):
        forces, lids = ref_forces(S)
        changed = False
        wmax = max(S.members[k]["sec"].b for u in units[2:] for k in u)
        new_ = {}
        for n, u in enumerate(units):
            cur = S.members[u[0]]["sec"]
            if n < 2:
                um, cm, bm = U[n], C[n], wmax if limit else 10
            else:
                Ns = forces[u[0]][lids[0]][0]
                if abs(Ns[0]) < 1e-3 and U[2] != U[3]:
                    raise vm.CaseSkip("sign of a zero force")
                um, cm, bm = U[2] if Ns[0] >= 0 else U[3], C[2], 10
            new, found = select(S, u, cur, {k: forces[k] for k in u}, lids, um, bm, 1e5, 5.0, cm)
            if not found:
                mon.nontrivial(("no profile", S.fam))
                raise vm.CaseSkip("no profile is sufficient")
            changed = changed or not same(cur, new)
            for k in u:
                new_[k] = new
        for k, s in new_.items():
            S.members[k]["sec"] = s
        if not changed:
            conv = True
            break
    for k in range(len(mems)):
        mon.ok("frame optimum", same(got[k], S.members[k]["sec"]), "%s member %d %s got %s want %s (iterations %d converged %s)" % (S.fam, k, S.members[k]["mtype"], got[k], S.members[k]["sec"], it, conv))
    if conv:
        for k, m in enumerate(S.members):
            u = fresh_util(S, m, m["sec"], frame_forces(mems[k], lids), lids)
            for lid in lids:
                mon.close("utilization after optimisation", mems[k].utilization[lid], u[lid], 1e-6, 1e-6, "member %d case %s" % (k, lid))
                mon.ok("utilization after optimisation", mems[k].utilization[lid] <= 1.0, "member %d case %s %s" % (k, lid, mems[k].utilization[lid]))
    for u in units:
        mon.ok("group profile", len({repr(mems[k].cross_section) for k in u}) == 1, "group %s profiles %s" % (u, [mems[k].cross_section for k in u]))
    mon.nontrivial((S.fam, P["top"], P["ndiv"], pairs, conv, it, limit))


WORKLOADS = {"design": (w_design, 250, 5000), "member": (w_member, 250, 4000), "frame": (w_frame, 60, 1000), "truss": (w_truss, 64, 1000)}

if __name__ == "__main__":
    vm.main(globals())
