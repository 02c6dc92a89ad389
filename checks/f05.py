"""F05: beams with semi-rigid end connections behave as beams with rotational springs at their ends."""
import os, sys, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vm
sys.path.insert(0, vm.VERIF)
import numpy as np
import femgen as G
import metku.framefem.framefem as FF
from metku.framefem.elements import EBBeam, EBSemiRigidBeam, Rod
from metku.framefem.elements.springs import LinearSpring

MODS = (FF, EBBeam, Rod, LinearSpring)
PROPERTY = "F05"
RULE = ("random plane structures (beams, portals, trees, arches, braced frames) in which a random subset of the beam elements is semi-rigid, with joint stiffnesses from hinge "
        "through 1e-4..1e4 times EI/L to rigid, nodal and line loads in 1-3 load cases; compared with a reference that has an explicit rotational spring at every semi-rigid "
        "end; stiffnesses, sections and loads are changed between analyses. Non-trivial: distinct (family, size, stiffness classes, loads, step).")
MONITORS = ["displacements", "rotations", "bending_moment", "shear_force", "axial_force", "after_change:bending_moment", "hinges", "list_of_the_caller", "defaults_are_rigid"]


def stiff(r, e, spec, soft):
    """(class, stiffness given to metku, spring stiffness of the reference or None rigid or 0 hinge)"""
    d = np.array(spec["nodes"][e["n"][1]]) - np.array(spec["nodes"][e["n"][0]])
    k0 = e["E"]*e["I"]/np.hypot(*d)
    c = r.choice(["mid", "mid", "mid", "rigid", "inf", "soft"] + (["hinge", "zero"] if soft else []))
    if c == "mid":
        k = k0*10**r.uniform(-2, 2)
        return c, k, k
    if c == "soft":
        k = k0*10**(r.uniform(-4, -2) if soft else r.uniform(2, 4))
        return c, k, k
    if c == "rigid":
        return c, r.choice([1e20, 1e21, 1e25]), None
    if c == "inf":
        return c, math.inf, None
    return c, (r.choice([1e-4, 1e-6, -1.0]) if c == "hinge" else 0.0), 0.0


def make(spec, r, semi):
    """replaces the semi-rigid elements in the metku model"""
    fem = FF.FrameFEM()
    for x, y in spec["nodes"]:
        fem.add_node(x, y)
    els = []
    lists = {}
    for i, e in enumerate(spec["elems"]):
        if i in semi:
            mat = fem.add_material(e["E"], 0.3, 7.85e-6)
            sec = FF.BeamSection(e["A"], e["I"])
            fem.add_section(sec)
            lists[i] = [k[1] for k in semi[i]]
            els.append(EBSemiRigidBeam(fem.nodes[e["n"][0]], fem.nodes[e["n"][1]], sec, mat, lists[i]))
        else:
            els.append(G.make_elem(fem, e, MODS))
    for k in r.sample(range(len(els)), len(els)):
        fem.add_element(els[k])
    for nid, dofs in spec["supports"]:
        fem.add_support(1, nid, list(dofs), 0)
    hs = {}
    for lid, lds in spec["cases"].items():
        for l in lds:
            hs[id(l)] = G.add_load(fem, els, lid, l, MODS)
        fem.add_loadcase(1, lid)
    fem.nodal_dofs()
    return fem, els, lists, hs


def set_ref(spec, semi):
    for i, ks in semi.items():
        e = spec["elems"][i]
        e["rel"] = [d for d, k in zip((2, 5), ks) if k[2] == 0.0]
        e["spr"] = {d: k[2] for d, k in zip((2, 5), ks) if k[2]}


def statics(r, mon):
    spec = G.gen_spec(r, family=r.choice(["beam", "portal", "tree", "arch", "braced"]))
    be = [i for i, e in enumerate(spec["elems"]) if e["kind"] == "beam" and not e["rel"]]
    if not be:
        raise vm.CaseSkip("no beams")
    sel = [i for i in be if r.random() < r.choice([0.3, 0.7])] or [r.choice(be)]
    # the rotation of every node has to remain well defined: ends next to free
    # beam ends may be soft only if another, rigid, end is at the same node
    rig = {}
    for i, e in enumerate(spec["elems"]):
        if e["kind"] == "beam" and i not in sel:
            for d, n in zip((2, 5), e["n"]):
                if d not in e["rel"]:
                    rig[n] = rig.get(n, 0) + 1
    for nid, dofs in spec["supports"]:
        if 2 in dofs:
            rig[nid] = rig.get(nid, 0) + 1
    draw = lambda i: [stiff(r, spec["elems"][i], spec, rig.get(n, 0) > 0) for n in spec["elems"][i]["n"]]
    semi = {i: draw(i) for i in sel}
    mon.case(dict(spec=spec, semi=semi))
    set_ref(spec, semi)
    G.ref_solve(spec)
    fem, els, lists, hs = make(spec, r, semi)
    default = EBSemiRigidBeam(fem.nodes[0], fem.nodes[1], els[sel[0]].section, els[sel[0]].material)
    lids = list(spec["cases"])
    for step in range(r.choice([1, 2, 3])):
        if step:
            for _ in range(r.randint(1, 2)):
                what = r.choice(["stiffness", "stiffness", "section", "load", "node"])
                i = r.choice(sel)
                e = spec["elems"][i]
                if what == "stiffness":
                    semi[i] = [k if k[2] is not None else stiff(r, e, spec, False) for k in draw(i)]
                    for a in (0, 1):
                        if semi[i][a][1] > 1e20 or semi[i][a][1] < 1e-4:
                            # the limits are applied by the constructor only
                            semi[i][a] = (semi[i][a][0], 1e20 if semi[i][a][2] is None else 1e-4, semi[i][a][2])
                        els[i].rot_stiff[a] = semi[i][a][1]
                elif what == "section":
                    e["A"], e["I"] = G.rnd_section(r)
                    els[i].section = FF.BeamSection(e["A"], e["I"])
                elif what == "load":
                    l = r.choice(spec["cases"][r.choice(lids)])
                    l["f"] = l["f"]*r.uniform(0.3, 2)
                    hs[id(l)].f = l["f"]
                else:
                    n = r.choice(e["n"])
                    x, y = spec["nodes"][n]
                    spec["nodes"][n] = (x, y*r.uniform(0.8, 1.3) + r.choice([0, 50.0]))
                    fem.nodes[n].coord = np.array(spec["nodes"][n])
                mon.note("change:"+what)
            set_ref(spec, semi)
        res = G.ref_solve(spec)
        meth = r.choice(["REM", "ZERO"])
        if r.random() < 0.5:
            fem.linear_statics(lids, support_method=meth)
        else:
            for l in r.sample(lids, len(lids)):
                fem.linear_statics(l, support_method=meth)
        G.compare(mon, spec, els, fem.nodes, res, lids, tol=5e-4, prefix="" if not step else "after_change:")
        G.equilibrium(mon, spec, els, fem.nodes, lids, res, tol=5e-4)
        # the moment of a semi-rigid end is the stiffness times the rotation of the joint
        for i in sel:
            for a in (0, 1):
                if semi[i][a][2] == 0.0:
                    for l in lids:
                        sM = G.scales(spec, res)[3]
                        mon.close("hinges", els[i].fint[l]["my"][a], 0, 0, 2e-4*sM)
        for k in semi.values():
            for x in k:
                mon.note("stiffness:"+x[0])
        mon.nontrivial((spec["family"], len(els), tuple(tuple(x[0] for x in semi[i]) for i in sel), len(lids), step, round(float(els[sel[0]].fint[lids[0]]["my"][0]))))
    for i, l in lists.items():
        if l is not els[i].rot_stiff:
            continue
        mon.ok("own_stiffness", False, "the element keeps the list given to it")
    d2 = EBSemiRigidBeam(fem.nodes[0], fem.nodes[1], els[sel[0]].section, els[sel[0]].material)
    mon.ok("defaults_are_rigid", min(d2.rot_stiff) >= 1e20 and min(default.rot_stiff) >= 1e20, str(d2.rot_stiff))


def shared(r, mon):
    """the stiffnesses of one element do not leak to another one"""
    fem = FF.FrameFEM()
    for x, y in [(0, 0), (4000, 0), (8000, 0)]:
        fem.add_node(x, y)
    A, I = G.rnd_section(r)
    mat = fem.add_material(210e3, 0.3, 7.85e-6)
    sec = FF.BeamSection(A, I)
    mine = [r.choice([math.inf, 0.0, 1e10]), r.choice([math.inf, 1e9, 1e22])]
    copy = list(mine)
    a = EBSemiRigidBeam(fem.nodes[0], fem.nodes[1], sec, mat, mine)
    b = EBSemiRigidBeam(fem.nodes[1], fem.nodes[2], sec, mat, mine)
    mon.case(dict(given=copy))
    mon.ok("list_of_the_caller", mine == copy, "%s became %s" % (copy, mine))
    k0 = np.array(b.stiffness_matrix())
    a.rot_stiff[0] = 1234.5
    a.rot_stiff[1] = 5432.1
    mon.ok("elements_are_independent", np.array_equal(k0, b.stiffness_matrix()), "stiffness of the other element changed")
    c = EBSemiRigidBeam(fem.nodes[0], fem.nodes[1], sec, mat)
    c.rot_stiff[0] = 10.0
    d = EBSemiRigidBeam(fem.nodes[0], fem.nodes[1], sec, mat)
    mon.ok("defaults_are_rigid", min(d.rot_stiff) >= 1e20, str(d.rot_stiff))
    mon.close("rigid_equals_beam", d.stiffness_matrix(), EBBeam(fem.nodes[0], fem.nodes[1], sec, mat).stiffness_matrix(), 1e-9, 1e-9*210e3*I/4000)
    mon.nontrivial((tuple(copy), round(I)))


WORKLOADS = {"statics": (statics, 500, 12000), "shared": (shared, 40, 200)}

if __name__ == "__main__":
    vm.main(globals())
