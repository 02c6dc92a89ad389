import vm
import numpy as np
import femgen as G
import metku.framefem.framefem as FF
from metku.framefem.elements import EBBeam, Rod
from metku.framefem.elements.springs import LinearSpring
MODS = (FF, EBBeam, Rod, LinearSpring)

PROPERTY = "F01"
RULE = ("random plane structures (continuous beams, sway/braced/pitched multi-storey frames, cantilever trees, "
        "arches, rod trusses, spring-supported frames) with random sections, hinges, supports, nodal and "
        "uniform/linearly varying line loads in 1-3 load cases; skipped when the reference finds them unstable or "
        "ill-conditioned; non-trivial = distinct (family, size, hinge, load pattern, support method) signature with a "
        "non-zero response")


def statics(r, mon):
    spec = G.gen_spec(r)
    mon.case(spec)
    res = G.ref_solve(spec)
    order = list(range(len(spec["elems"])))
    if r.random() < 0.3:
        r.shuffle(order)
    fem, els, h = G.build_metku(spec, MODS, order)
    meth = r.choice(["REM", "ZERO", None])
    lids = list(spec["cases"])
    mode = r.choice(["each", "list"]) if len(lids) > 1 else r.choice(["each", "each", "list"])
    kw = {} if meth is None else dict(support_method=meth)
    if mode == "list":
        fem.linear_statics(lids, **kw)
    else:
        for l in r.sample(lids, len(lids)):
            fem.linear_statics(l, **kw)
    G.compare(mon, spec, els, fem.nodes, res, lids)
    G.equilibrium(mon, spec, els, fem.nodes, lids, res)
    # supported degrees of freedom do not move
    for nid, dofs in spec["supports"]:
        for l in lids:
            for d in dofs:
                mon.ok("supports_hold", fem.nodes[nid].u[l][d] == 0, "node %d dof %d" % (nid, d))
    # the elements see the displacements of their nodes, in global and in their own directions
    for el in els:
        for l in lids:
            q = np.asarray(el.nodal_displacements(l)).ravel()
            k = len(q) // 2
            u = np.concatenate([np.asarray(n.u[l])[:k] for n in el.nodes])
            mon.close("element displacements", q, u, 1e-12, 1e-12, "displacements of the nodes of an element")
            if k == 3:
                d = np.asarray(el.nodes[1].coord, float) - np.asarray(el.nodes[0].coord, float)
                c, s = d / np.hypot(*d)
                R = np.array([[c, s, 0], [-s, c, 0], [0, 0, 1]])
                mon.close("element displacements", np.asarray(el.local_displacements(l)).ravel(), np.concatenate([R @ u[:3], R @ u[3:]]), 0, 1e-5 * max(1e-9, np.abs(u).max()), "local displacements")
    mon.note("family:"+spec["family"])
    mon.note("method:%s" % meth)
    mon.nontrivial((spec["family"], len(spec["elems"]), sum(len(e["rel"]) for e in spec["elems"]), meth, mode,
                    [(l["kind"], l.get("dir"), l.get("coords")) for ls in spec["cases"].values() for l in ls]))


def superposition(r, mon):
    """response of the sum of the loads = sum of the responses; scaling by f"""
    spec = G.gen_spec(r, ncases=1)
    lid = list(spec["cases"])[0]
    lds = spec["cases"][lid]
    f = r.uniform(-2, 3)
    spec["cases"] = {lid: lds, 11: [dict(l, f=l["f"]*f) for l in lds]}
    half = len(lds)//2
    spec["cases"][12] = lds[:half] or [dict(kind="p", node=0, v=[0, 0, 0.0], f=1.0)]
    spec["cases"][13] = lds[half:]
    mon.case(spec)
    res = G.ref_solve(spec)
    fem, els, h = G.build_metku(spec, MODS)
    fem.linear_statics([lid, 11, 12, 13], support_method=r.choice(["REM", "ZERO"]))
    su, sth, sF, sM = G.scales(spec, res)
    for n in fem.nodes:
        mon.close("scaling", n.u[11], f*n.u[lid], 1e-6, 1e-6*su)
        mon.close("superposition", n.u[12]+n.u[13], n.u[lid], 1e-6, 1e-6*su)
    for el in els:
        for k, s in (("fx", sF), ("fz", sF), ("my", sM)):
            a, b, c, d = [vm.np.asarray(el.fint[q][k], float) for q in (lid, 11, 12, 13)]
            mon.close("scaling", b, f*a, 1e-6, 1e-5*s)
            mon.close("superposition", c+d, a, 1e-6, 1e-5*s)
    mon.nontrivial((spec["family"], len(spec["elems"]), round(f, 3)))


def subdivision(r, mon):
    """splitting the elements of a beam structure changes nothing at the original nodes"""
    spec = G.gen_spec(r, family=r.choice(["beam", "portal", "tree", "arch"]), ncases=1)
    mon.case(spec)
    res = G.ref_solve(spec)
    lid = list(spec["cases"])[0]
    fine = dict(family=spec["family"], nodes=list(spec["nodes"]), supports=spec["supports"], cases={})
    fine["elems"] = []
    sub = {}
    for ie, e in enumerate(spec["elems"]):
        m = r.randint(1, 3)
        a, b = [vm.np.array(spec["nodes"][k]) for k in e["n"]]
        prev = e["n"][0]
        sub[ie] = []
        for k in range(1, m+1):
            if k < m:
                fine["nodes"].append(tuple(a+(b-a)*k/m))
                nx = len(fine["nodes"])-1
            else:
                nx = e["n"][1]
            rel = [d for d in e["rel"] if (d == 2 and k == 1) or (d == 5 and k == m)]
            sub[ie].append(len(fine["elems"]))
            fine["elems"].append(dict(e, n=(prev, nx), rel=rel))
            prev = nx
    L2 = []
    for l in spec["cases"][lid]:
        if l["kind"] == "p":
            L2.append(l)
        else:
            ids = sub[l["el"]]
            m = len(ids)
            q1, q2 = l["q"]
            for k, i in enumerate(ids):
                L2.append(dict(l, el=i, q=[q1+(q2-q1)*k/m, q1+(q2-q1)*(k+1)/m]))
    fine["cases"] = {lid: L2}
    fem, els, h = G.build_metku(fine, MODS)
    fem.linear_statics(lid, support_method="REM")
    su, sth, sF, sM = G.scales(spec, res)
    U, R, _, fr = res[lid]
    for i in range(len(spec["nodes"])):
        mon.close("mesh_independence", fem.nodes[i].u[lid][:2], U[i, :2], 0, 3e-4*su, "node %d" % i)
    for ie in sub:
        f0, f1 = els[sub[ie][0]].fint[lid], els[sub[ie][-1]].fint[lid]
        mon.close("mesh_independence", [f0["fx"][0], f1["fx"][1]], [-R[ie][0], R[ie][3]], 0, 3e-4*sF)
        mon.close("mesh_independence", [f0["my"][0], f1["my"][1]], [-R[ie][2], R[ie][5]], 0, 3e-4*sM)
    mon.nontrivial((len(fine["elems"]), spec["family"], len(L2)))


def loadcase_first(r, mon):
    """load cases declared before the nodes/elements are added"""
    spec = G.gen_spec(r)
    mon.case(spec)
    res = G.ref_solve(spec)
    fem = FF.FrameFEM()
    for lid in spec["cases"]:
        fem.add_loadcase(1, lid)
    for x, y in spec["nodes"]:
        fem.add_node(x, y)
    els = []
    for e in spec["elems"]:
        el = G.make_elem(fem, e, MODS)
        fem.add_element(el)
        els.append(el)
        if e["rel"]:
            el.releases = []
            fem.add_release(len(els)-1, list(e["rel"]))
    for nid, dofs in spec["supports"]:
        fem.add_support(1, nid, list(dofs), 0)
    # a second support set and its loads must not leak into the analysed case
    fem.add_support(2, 0, [0, 1, 2], 0)
    for lid, lds in spec["cases"].items():
        for l in lds:
            G.add_load(fem, els, lid, l, MODS)
    fem.add_load(FF.PointLoad(99, fem.nodes[-1], [1e5, 1e5, 0], 1.0))
    fem.nodal_dofs()
    lids = list(spec["cases"])
    fem.linear_statics(lids if r.random() < 0.5 else lids[0], support_method=r.choice(["REM", "ZERO"]))
    for l in lids[1:]:
        fem.linear_statics(l, support_method="REM")
    G.compare(mon, spec, els, fem.nodes, res, lids, prefix="")
    mon.note("loadcase_first")
    mon.nontrivial(("lcf", spec["family"], len(spec["elems"]), len(lids)))


WORKLOADS = dict(statics=(statics, 4000, 60000), superposition=(superposition, 800, 8000),
                 subdivision=(subdivision, 800, 8000), loadcase_first=(loadcase_first, 800, 8000))
MONITORS = ["displacements", "rotations", "axial_force", "shear_force", "bending_moment",
            "nodal_equilibrium", "supports_hold", "element displacements", "scaling", "superposition", "mesh_independence"]
if __name__ == "__main__":
    vm.main(globals())
