import copy
import vm
import femgen as G
import metku.framefem.framefem as FF
from metku.framefem.elements import EBBeam, Rod
from metku.framefem.elements.springs import LinearSpring
MODS = (FF, EBBeam, Rod, LinearSpring)
np = vm.np

PROPERTY = "F02"
RULE = ("random plane structures edited in random sequences of 2-8 steps (section, material, load factor, load value, "
        "load added/removed, hinge set/removed, node moved, support added, member or load case added, buckling "
        "analysis in between); after every step the live model is analysed and compared with a from-scratch reference "
        "of the edited structure; non-trivial = distinct edit sequence on a distinct structure")


def edit(r, spec, fem, els, H):
    """apply one random edit to spec and live model; returns its name"""
    ops = ["section_obj", "section_values", "material", "factor", "value", "add_load", "remove_load", "hinge",
           "unhinge", "move", "support", "member", "loadcase", "swap_back", "again"]
    op = r.choice(ops)
    beams = [i for i, e in enumerate(spec["elems"]) if e["kind"] == "beam"]
    solid = [i for i, e in enumerate(spec["elems"]) if e["kind"] != "spring"]
    lid = r.choice(list(spec["cases"]))
    lds = spec["cases"][lid]
    if op in ("section_obj", "section_values"):
        i = r.choice(solid)
        A, I = G.rnd_section(r)
        spec["elems"][i].update(A=A, I=I)
        if op == "section_obj":
            els[i].section = FF.BeamSection(A, I)
        else:
            els[i].section.A = A
            els[i].section.I[0] = I
    elif op == "swap_back":
        i = r.choice(solid)
        e = spec["elems"][i]
        old = els[i].section
        A, I = G.rnd_section(r)
        els[i].section = FF.BeamSection(A, I)
        fem.linear_statics(lid, support_method="REM")
        els[i].section = old
    elif op == "material":
        i = r.choice(solid)
        E = r.uniform(5e4, 2.5e5)
        spec["elems"][i]["E"] = E
        els[i].material = FF.Material(E, 7.85e-6, nu=0.3)
    elif op == "factor":
        k = r.randrange(len(lds))
        f = r.choice([0.0, 1.35, -1, r.uniform(0.1, 3)])
        H[lid][k].f = f
        lds[k] = dict(lds[k], f=f)
    elif op == "value":
        k = r.randrange(len(lds))
        l = lds[k]
        if l["kind"] == "p":
            v = [r.uniform(-1e5, 1e5), r.uniform(-1e5, 1e5), 0.0]
            H[lid][k].v = v
            lds[k] = dict(l, v=v)
        else:
            q = [r.uniform(-30, 30), r.uniform(-30, 30)]
            H[lid][k].qval = q
            lds[k] = dict(l, q=q)
    elif op == "add_load":
        l = G.gen_lload(r, spec) if r.random() < .7 else G.gen_pload(r, spec)
        lds.append(l)
        H[lid].append(G.add_load(fem, els, lid, l, MODS))
    elif op == "remove_load":
        if len(lds) < 2:
            return None
        k = r.randrange(len(lds))
        fem.loads.remove(H[lid][k])
        del H[lid][k]
        del lds[k]
    elif op == "hinge":
        if not beams:
            return None
        i = r.choice(beams)
        new = sorted(set(spec["elems"][i]["rel"]) | {r.choice([2, 5])})
        spec["elems"][i]["rel"] = new
        if r.random() < .5:
            fem.add_release(els.index(els[i]) if fem.elements[i] is els[i] else fem.elements.index(els[i]), list(new))
        else:
            els[i].releases = list(new)
    elif op == "unhinge":
        h = [i for i in beams if spec["elems"][i]["rel"]]
        if not h:
            return None
        i = r.choice(h)
        new = spec["elems"][i]["rel"][1:] if r.random() < .5 else []
        spec["elems"][i]["rel"] = list(new)
        els[i].releases = list(new)
    elif op == "move":
        i = r.randrange(len(spec["nodes"]))
        x, y = spec["nodes"][i]
        x, y = x+r.uniform(-150, 150), y+r.uniform(-150, 150)
        spec["nodes"][i] = (x, y)
        fem.nodes[i].x = x
        fem.nodes[i].y = y
    elif op == "support":
        i = r.randrange(len(spec["nodes"]))
        d = [r.randrange(2)]
        spec["supports"].append((i, d))
        fem.add_support(1, i, list(d), 0)
    elif op == "member":
        i = r.randrange(len(spec["nodes"]))
        x, y = spec["nodes"][i]
        p = (x+r.uniform(500, 2000)*r.choice([-1, 1]), y+r.uniform(-1500, 1500))
        spec["nodes"].append(p)
        fem.add_node(*p)
        A, I = G.rnd_section(r)
        e = dict(n=(i, len(spec["nodes"])-1), E=G.E_S, A=A, I=I, rel=[], kind="beam")
        spec["elems"].append(e)
        el = G.make_elem(fem, e, MODS)
        els.append(el)
        fem.add_element(el)
        if r.random() < .7:
            spec["supports"].append((len(spec["nodes"])-1, [0, 1, 2]))
            fem.add_support(1, len(spec["nodes"])-1, [0, 1, 2], 0)
        fem.nodal_dofs()
    elif op == "loadcase":
        nid = max(spec["cases"])+1
        spec["cases"][nid] = [G.gen_lload(r, spec)]
        H[nid] = [G.add_load(fem, els, nid, spec["cases"][nid][0], MODS)]
        fem.add_loadcase(1, nid)
    return op


def history(r, mon):
    spec = G.gen_spec(r)
    log = []
    mon.case(dict(start=copy.deepcopy(spec), log=log))
    G.ref_solve(spec)
    fem, els, h = G.build_metku(spec, MODS)
    H = {lid: [h[id(l)] for l in lds] for lid, lds in spec["cases"].items()}
    meth = r.choice(["REM", "ZERO"])
    n = r.randint(2, 8)
    analysed = 0
    for k in range(n):
        snap = copy.deepcopy(spec)
        if k:
            op = edit(r, spec, fem, els, H)
            if op is None:
                continue
            log.append(op)
        try:
            res = G.ref_solve(spec)
        except vm.CaseSkip:
            # the edited structure is a mechanism: nothing to compare, stop here
            mon.note("stopped_at_mechanism")
            break
        lids = list(spec["cases"])
        if r.random() < .5:
            fem.linear_statics(lids, support_method=meth)
        else:
            for l in r.sample(lids, len(lids)):
                fem.linear_statics(l, support_method=meth)
        G.compare(mon, spec, els, fem.nodes, res, lids)
        analysed += 1
        if k:
            mon.note("edit:"+op)
        if r.random() < .15:
            # an analysis must leave no trace for the next one
            U = [n.u[lids[0]].copy() for n in fem.nodes]
            F = [copy.deepcopy(el.fint[lids[0]]) for el in els]
            fem.linear_statics(lids[0], support_method=r.choice(["REM", "ZERO"]))
            su, sth, sF, sM = G.scales(spec, res)
            for n0, u0 in zip(fem.nodes, U):
                mon.close("repeatable", n0.u[lids[0]], u0, 1e-6, 1e-6*su)
            for el, f0 in zip(els, F):
                for q, s in (("fx", sF), ("fz", sF), ("my", sM)):
                    mon.close("repeatable", el.fint[lids[0]][q], f0[q], 1e-6, 1e-5*s)
    if analysed > 1:
        mon.nontrivial((spec["family"], len(spec["elems"]), tuple(log), meth))


WORKLOADS = dict(history=(history, 2500, 40000))
MONITORS = ["displacements", "axial_force", "shear_force", "bending_moment", "repeatable"]
if __name__ == "__main__":
    vm.main(globals())
