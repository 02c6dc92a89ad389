"""R01: results of Raami frames are the exact elastic response of the current frame."""
import os, sys, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vm
sys.path.insert(0, vm.VERIF)
import numpy as np
import raamigen as G

PROPERTY = "R01"
RULE = ("one case is one random frame (continuous beams, portals, multi-storey, braced, trusses) built through the Raami interface and driven through a random "
        "history of edits (profiles, moved nodes with and without regenerating the model, hinges, loads, self weight, supports); after every step all or single load cases are "
        "analysed and the member results are compared with an independent frame solver. Non-trivial: distinct (family, size, edit history).")
MONITORS = ["axial forces", "shear forces", "moments", "displacements", "rotations", "design forces", "extremes", "weight", "geometry", "bookkeeping"]


def cases_of(S):
    c = {}
    for l in S.loads:
        c.setdefault(l["id"], []).append((l, 1.0))
    return c


def add_load(S, f, nodes, mems, l, H, r):
    h = G.make_load(S, l, nodes, mems)
    H.append(h)
    f.add(h)


def self_weight_loads(S):
    return [dict(kind="l", id=100, mem=k, q=[-m["sec"].A * 7850e-9 * 9.81] * 2, dir="y", coords="global", f=1.0, ltype="dead", name=None, sw=True)
            for k, m in enumerate(S.members)]


def w_frame(r, mon):
    S = G.topology(r)
    ids = r.sample([0, 1, 2, 3, 7], r.choice([1, 1, 2, 3]))
    G.gen_loads(r, S, ids)
    mon.case(dict(family=S.fam, nodes=S.nodes, members=[(m["n"], repr(m["sec"]), m["nel"], m["hinges"], m["mtype"]) for m in S.members],
                  supports=S.supports, loads=S.loads))
    G.reference(S, cases_of(S))           # skip unstable frames at once
    f, nodes, mems = G.build_members(S, r)
    H = []
    for l in S.loads:
        add_load(S, f, nodes, mems, l, H, r)
    mon.ok("bookkeeping", len(f.loads) == len(S.loads) and set(f.load_cases) == set(ids), "%d loads of %d, cases %s" % (len(f.loads), len(S.loads), set(f.load_cases)))
    hist = []
    regen = True
    sw = False
    for step in range(r.randint(1, 5)):
        if regen or r.random() < 0.2:
            f.generate_fem()
            regen = False
            if sw:                     # the stored loads follow when self weight is added again
                pass
        cs = cases_of(S)
        ref, allrel = G.reference(S, cs)
        meth = r.choice(["REM", "REM", "ZERO"])
        lids = sorted(cs)
        mode = r.choice(["ALL", "all", "single", "calculate", "None"])
        if mode == "single":
            lids = r.sample(lids, r.randint(1, len(lids)))
            for lid in lids:
                f.structural_analysis(lid, support_method=meth, design=False)
        elif mode == "calculate":
            f.calculate(design=False)
        elif mode == "None":
            f.structural_analysis(support_method=meth, design=False)
            lids = [f.load_ids[0]]
        else:
            f.structural_analysis(mode, support_method=meth, design=False)
        d = "%s %s %s history=%s" % (S.fam, mode, meth, hist)
        G.compare(mon, S, mems, ref, allrel, lids, d)
        # extreme forces over load cases
        for k, (m, mm) in enumerate(zip(S.members, mems)):
            got = mm.get_max_forces(lids)
            for key in ("N", "Vz", "My"):
                allv = [(v, lid, i) for lid in lids for i, v in enumerate(mm.nodal_forces[lid][key])]
                for fn, nm in ((min, "min"), (max, "max")):
                    g = got["%s %s" % (nm, key)]
                    mon.ok("extremes", g[key] == fn(allv)[0], "%s %s of member %d = %s want %s" % (nm, key, k, g, fn(allv)))
                    fo = mm.nodal_forces[g["load_id"]]
                    mon.ok("extremes", any(all(fo[q][i] == g[q] for q in fo) for i in range(len(fo["N"]))), "companions %s" % g)
        W = 0
        for m, mm in zip(S.members, mems):
            a, b = np.array(S.nodes[m["n"][0]]), np.array(S.nodes[m["n"][1]])
            L = float(np.linalg.norm(b - a))
            W += m["sec"].A * 7850e-9 * L
            mon.close("geometry", [mm.length(), mm.member.length], [L, L], 1e-9, 0, d)
            mon.close("geometry", mm.local_to_global(0.3), a + 0.3 * (b - a), 1e-9, 1e-6, d)
            mon.close("geometry", mm.global_to_local(a + 0.3 * (b - a)), 0.3, 1e-6, 0, d)
        mon.close("weight", f.weight(), W, 1e-9, 0, d)
        mon.nontrivial((S.fam, len(S.members), tuple(hist)))
        # --- edit
        op = r.choice(["section", "section", "move", "move_regen", "hinge", "load", "factor", "selfweight", "selfweight_off", "support", "value", "newmember"])
        if op == "section":
            k = r.randrange(len(mems))
            s = G.section(r)
            S.members[k]["sec"] = s
            mems[k].cross_section = s
        elif op in ("move", "move_regen"):
            i = r.randrange(len(nodes))
            ax = r.randrange(2)
            v = S.nodes[i][ax] + r.uniform(-150, 150)
            S.nodes[i][ax] = v
            setattr(nodes[i], "xy"[ax], v)
            regen = regen or op == "move_regen"
        elif op == "hinge":
            k = r.randrange(len(mems))
            if S.members[k]["mtype"] in ("bar", "brace"):
                continue
            e = r.randrange(2)
            old = list(S.members[k]["hinges"])
            S.members[k]["hinges"][e] = True
            try:
                G.reference(S, cs)
            except vm.CaseSkip:
                S.members[k]["hinges"] = old
                continue
            mems[k].add_hinge(e)
            regen = True
        elif op == "load":
            l = G.gen_load(r, S, r.choice([0, 1, 2, 3, 7]))
            S.loads.append(l)
            add_load(S, f, nodes, mems, l, H, r)
            regen = True
        elif op == "factor":
            k = r.randrange(len(H))
            if S.loads[k].get("sw"):
                continue
            S.loads[k]["f"] = H[k].f = r.uniform(-2, 2)
            regen = True
        elif op == "value":
            k = r.randrange(len(H))
            if S.loads[k].get("sw"):
                continue
            if S.loads[k]["kind"] == "p":
                v = [r.uniform(-4e4, 4e4), r.uniform(-4e4, 4e4), 0.0]
                S.loads[k]["v"] = v
                H[k].v = np.array(v)
            else:
                q = [r.uniform(-20, 20), r.uniform(-20, 20)]
                S.loads[k]["q"] = q
                H[k].values = np.array(q)
            regen = True
        elif op == "selfweight":
            if any(m["mtype"] in ("bar", "brace") for m in S.members):
                continue              # line loads on bar elements are not supported
            f.add_self_weight()
            sw = True
            S.loads = [l for l in S.loads if not l.get("sw")] + self_weight_loads(S)
            regen = True
            mon.ok("bookkeeping", len(f.loads) == len(S.loads), "%d loads after self weight, want %d" % (len(f.loads), len(S.loads)))
        elif op == "selfweight_off":
            if not sw:
                continue
            f.remove_self_weight()
            sw = False
            S.loads = [l for l in S.loads if not l.get("sw")]
            regen = True
            mon.ok("bookkeeping", len(f.loads) == len(S.loads), "%d loads after removal, want %d" % (len(f.loads), len(S.loads)))
        elif op == "support":
            i = r.randrange(len(nodes))
            if any(i == j for j, _ in S.supports):
                continue
            dofs = r.choice([[0], [1], [0, 1]])
            S.supports.append((i, dofs))
            f.add(G.SUPP[tuple(dofs)](nodes[i]))
            regen = True
        elif op == "newmember":
            i = r.randrange(len(nodes))
            a = r.uniform(-math.pi, math.pi)
            x, y = S.nodes[i][0] + 1500 * math.cos(a), S.nodes[i][1] + 1500 * math.sin(a)
            S.nodes.append([x, y])
            n = G.FrameNode([x, y])
            f.add(n)
            nodes.append(n)
            m = dict(n=(i, len(S.nodes) - 1), sec=G.section(r), nel=r.choice([1, 2, 3]), hinges=[False, False], mtype="beam")
            if S.fam in ("truss",) or not any(i in q["n"] and q["mtype"] not in ("bar", "brace") and not q["hinges"][q["n"].index(i)] for q in S.members):
                m["mtype"], m["nel"] = "bar", 1
                S.supports.append((len(S.nodes) - 1, [0, 1]))
                f.add(G.XYHingedSupport(n))
            S.members.append(m)
            mm = G.SteelFrameMember([nodes[i], n], m["sec"], mem_type=m["mtype"], nel=m["nel"])
            mems.append(mm)
            f.add(mm)
            sw_l = None
            regen = True
        hist.append(op)


WORKLOADS = {"frame": (w_frame, 400, 8000)}

if __name__ == "__main__":
    vm.main(globals())
