"""R02: load combinations of Raami frames."""
import os, sys, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vm
sys.path.insert(0, vm.VERIF)
import numpy as np
import raamigen as G

PROPERTY = "R02"
RULE = ("one case is one random frame with 1-5 load cases of dead, live, snow and wind loads (registered as bare loads, as load case objects, or both; with equal or default names "
        "and user scaling factors) and 1-4 ULS/SLS combinations of them; the factored loads, the combined forces and displacements (against superposition of the factored loads by an "
        "independent solver and of the frame's own case results) and the untouched source loads are checked, again after edits and re-combination. "
        "Non-trivial: distinct (family, case types, combination types, history).")
MONITORS = ["factored loads", "axial forces", "shear forces", "moments", "displacements", "superposition", "source loads", "bookkeeping", "design forces"]
PSI = {"live": 0.7, "snow": 0.7, "wind": 0.6}


def factor(ltype, comb, lead):
    if ltype == "dead":
        return 1.15 if comb == "ULS" else 1.0
    k = 1.5 if comb == "ULS" else 1.0
    return k if lead else k * PSI[ltype]


def w_comb(r, mon):
    S = G.topology(r)
    ids = r.sample([0, 1, 2, 3, 5, 7, 11], r.randint(1, 5))
    types = {lid: r.choice(["dead", "live", "snow", "wind"]) for lid in ids}
    names = r.choice([None, "same", "mix"])
    for lid in ids:
        for _ in range(r.randint(1, 3)):
            l = G.gen_load(r, S, lid)
            l["ltype"] = types[lid]
            l["name"] = {None: None, "same": "q", "mix": l["name"]}[names]
            S.loads.append(l)
    combs = []
    for c in range(r.randint(1, 4)):
        use = r.sample(ids, r.randint(1, len(ids)))
        combs.append(dict(id=20 + c, type=r.choice(["ULS", "ULS", "SLS"]), use=use))
    mon.case(dict(family=S.fam, nodes=S.nodes, members=[(m["n"], repr(m["sec"]), m["nel"], m["hinges"], m["mtype"]) for m in S.members],
                  supports=S.supports, loads=S.loads, combinations=combs))

    def cases():
        c = {}
        for l in S.loads:
            c.setdefault(l["id"], []).append((l, 1.0))
        for cb in combs:
            c[cb["id"]] = [(l, factor(l["ltype"], cb["type"], l["id"] == cb["lead"])) for lid in cb["use"] for l in S.loads if l["id"] == lid]
        return c
    for cb in combs:
        cb["lead"] = next((lid for lid in cb["use"] if types[lid] != "dead"), None)
    G.reference(S, cases())
    f, nodes, mems = G.build_members(S, r)
    H = {}
    mode = r.choice(["loads", "cases", "mix"])
    for lid in r.sample(ids, len(ids)):
        ls = [k for k, l in enumerate(S.loads) if l["id"] == lid]
        for k in ls:
            H[k] = G.make_load(S, S.loads[k], nodes, mems)
        if mode == "loads" or (mode == "mix" and r.random() < 0.5):
            for k in ls:
                f.add(H[k])
                if r.random() < 0.15:
                    f.add(H[k])
        else:
            f.add(G.LoadCase(lid, [H[k] for k in ls]))
    mon.ok("bookkeeping", len(f.loads) == len(S.loads) and set(f.load_cases) == set(ids) and set(f.load_ids) == set(ids),
           "loads %d of %d, cases %s of %s ids %s" % (len(f.loads), len(S.loads), sorted(f.load_cases), sorted(ids), f.load_ids))
    C = []
    for cb in combs:
        lc = G.LoadCombination(cb["id"], cb["type"], load_cases=[f.load_cases[i] for i in cb["use"]])
        C.append(lc)
        f.add(lc)
    hist = []
    for step in range(r.randint(1, 3)):
        d = "%s %s names=%s history=%s" % (S.fam, mode, names, hist)
        # factored loads
        for cb in combs:
            got = sorted(l.f for l in f.loads.values() if l.load_id == cb["id"])
            want = sorted(l["f"] * factor(l["ltype"], cb["type"], l["id"] == cb["lead"]) for lid in cb["use"] for l in S.loads if l["id"] == lid)
            mon.ok("factored loads", len(got) == len(want) and np.allclose(got, want, rtol=1e-12), "%s combination %s got %s want %s" % (d, cb, got, want))
        mon.ok("bookkeeping", all(k == l.name for k, l in f.loads.items()), "names %s" % [(k, l.name) for k, l in f.loads.items()])
        f.generate_fem()
        cs = cases()
        ref, allrel = G.reference(S, cs)
        lids = sorted(cs)
        how = r.choice(["ALL", "calculate", "single"])
        if how == "ALL":
            f.structural_analysis("ALL", support_method=r.choice(["REM", "ZERO"]), design=False)
        elif how == "calculate":
            f.calculate(design=False)
        else:
            for lid in r.sample(lids, len(lids)):
                f.structural_analysis(lid, support_method="REM", design=False)
        G.compare(mon, S, mems, ref, allrel, lids, d + " " + how)
        # superposition of the frame's own results
        for cb in combs:
            for k, mm in enumerate(mems):
                for q in ("N", "Vz", "My"):
                    if any(len({l["ltype"] for l in S.loads if l["id"] == lid}) > 1 for lid in cb["use"]):
                        continue
                    tot = sum(factor(types[lid], cb["type"], lid == cb["lead"]) * np.array(mm.nodal_forces[lid][q], float) for lid in cb["use"])
                    sc = sum(np.max(np.abs(np.array(m2.nodal_forces[lid][q2], float))) for m2 in mems for lid in cb["use"] for q2 in (("N", "Vz") if q != "My" else ("N", "Vz", "My"))) + 1
                    mon.close("superposition", mm.nodal_forces[cb["id"]][q], tot, 0, 1e-6 * sc, "%s combination %s member %d %s" % (d, cb, k, q))
        for k, h in H.items():
            l = S.loads[k]
            v = h.v if l["kind"] == "p" else h.values
            mon.ok("source loads", abs(h.f - l["f"]) <= 1e-12 * abs(l["f"]) and h.load_id == l["id"] and np.allclose(v, l["v"] if l["kind"] == "p" else l["q"], rtol=1e-12)
                   and f.loads.get(h.name) is h and h in f.load_cases[l["id"]].loads, "%s load %s became f=%s id=%s" % (d, l, h.f, h.load_id))
        mon.nontrivial((S.fam, tuple(sorted(types[i] for i in ids)), tuple(sorted((c["type"], len(c["use"])) for c in combs)), tuple(hist)))
        # --- edits followed by a new combination of the loads
        op = r.choice(["again", "factor", "value", "load", "remove", "section"])
        if op == "factor":
            k = r.choice(list(H))
            S.loads[k]["f"] = H[k].f = r.uniform(-2, 2)
        elif op == "value":
            k = r.choice(list(H))
            if S.loads[k]["kind"] == "p":
                S.loads[k]["v"] = [r.uniform(-4e4, 4e4), r.uniform(-4e4, 4e4), 0.0]
                H[k].v = np.array(S.loads[k]["v"])
            else:
                S.loads[k]["q"] = [r.uniform(-20, 20), r.uniform(-20, 20)]
                H[k].values = np.array(S.loads[k]["q"])
        elif op == "load":
            lid = r.choice(ids)
            l = G.gen_load(r, S, lid)
            l["ltype"] = types[lid]
            S.loads.append(l)
            k = len(S.loads) - 1
            H[k] = G.make_load(S, l, nodes, mems)
            f.add(H[k])
        elif op == "section":
            k = r.randrange(len(mems))
            S.members[k]["sec"] = mems[k].cross_section = G.section(r)
        for lc in r.sample(C, len(C)):
            for _ in range(r.choice([1, 1, 2])):
                lc.combine_loads()
        hist.append(op)


WORKLOADS = {"comb": (w_comb, 400, 8000)}

if __name__ == "__main__":
    vm.main(globals())
