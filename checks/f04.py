import math
import vm
from ref.frames import Frame3D
import metku.framefem.framefem as FF
from metku.framefem.elements.ebbeam import EBBeam3D
import metku.sections.steel as _s
from metku.sections.steel.ISection import HEA, IPE
from metku.sections.steel.RHS import RHS, SHS
np = vm.np

PROPERTY = "F04"
RULE = ("random space frames (grids, towers, trees) of beam elements with steel profiles, arbitrary directions incl. "
        "members along each axis, default or explicit orientation nodes, nodal forces and moments in all six directions; "
        "non-trivial = distinct frame with a non-zero response in 3D")

SECS = [lambda: HEA(200), lambda: IPE(300), lambda: RHS(200, 100, 8), lambda: SHS(120, 6), lambda: HEA(300), lambda: IPE(160)]


def gen(r):
    nodes, elems = [], []
    fam = r.choice(["tree", "box", "line"])
    if fam == "box":
        a, b, h = [r.uniform(2000, 6000) for _ in range(3)]
        st = r.randint(1, 2)
        for k in range(st+1):
            for x, z in ((0, 0), (a, 0), (a, b), (0, b)):
                nodes.append((x, k*h, z) if fam == "box" and r.random() < 2 else None)
        up = r.choice([1, 2])
        nodes = [(x, y, z) if up == 1 else (x, z, y) for x, y, z in nodes]
        for k in range(st):
            for c in range(4):
                elems.append((4*k+c, 4*k+4+c))
            for c in range(4):
                elems.append((4*k+4+c, 4*k+4+(c+1) % 4))
        sup = [(c, [0, 1, 2, 3, 4, 5]) for c in range(4)]
    else:
        nodes.append((0.0, 0.0, 0.0))
        for _ in range(r.randint(1, 6)):
            i = r.randrange(len(nodes)) if fam == "tree" else len(nodes)-1
            L = r.uniform(800, 4000)
            if r.random() < 0.5:
                d = np.zeros(3)
                d[r.randrange(3)] = r.choice([-1, 1])
            else:
                d = np.array([r.gauss(0, 1) for _ in range(3)])
                d /= np.linalg.norm(d)
            nodes.append(tuple(np.array(nodes[i])+L*d))
            j = len(nodes)-1
            elems.append((i, j) if r.random() < .6 else (j, i))
        sup = [(0, [0, 1, 2, 3, 4, 5])]
        if r.random() < .4:
            sup.append((len(nodes)-1, sorted(r.sample(range(6), r.randint(1, 3)))))
    E = []
    for i, j in elems:
        d = np.array(nodes[j])-np.array(nodes[i])
        d = d/np.linalg.norm(d)
        ref = None
        if r.random() < 0.4:
            v = np.array([r.gauss(0, 1) for _ in range(3)])
            v -= (v @ d)*d
            if np.linalg.norm(v) > .3:
                ref = tuple(np.array(nodes[i]) + 1000*v/np.linalg.norm(v) + r.uniform(-.5, .5)*1000*d)
        E.append(dict(n=(i, j), sec=r.randrange(len(SECS)), ref=ref))
    loads = []
    for _ in range(r.randint(1, 4)):
        v = [r.choice([0, r.uniform(-5e4, 5e4)]) for _ in range(3)] + [r.choice([0, 0, r.uniform(-3e7, 3e7)]) for _ in range(3)]
        loads.append((r.randrange(len(nodes)), v, r.choice([1.0, 1.35, -1.0, r.uniform(.2, 2)])))
    return dict(family=fam, nodes=nodes, elems=E, supports=sup, loads=loads)


def space(r, mon):
    s = gen(r)
    mon.case(s)
    secs = [f() for f in SECS]
    re = []
    for e in s["elems"]:
        c = secs[e["sec"]]
        ref = e["ref"]
        if ref is None:
            n2 = np.array(s["nodes"][e["n"][1]])
            d = n2-np.array(s["nodes"][e["n"][0]])
            d = d/np.linalg.norm(d)
            # documented default: local x-z plane contains global z (global x for members along z)
            ref = n2 + ([1, 0, 0] if np.linalg.norm(np.cross(d, [0, 0, 1])) < 1e-6 else [0, 0, 1])
            if 1e-6 <= np.linalg.norm(np.cross(d, [0, 0, 1])) < 1e-3:
                raise vm.CaseSkip("almost vertical")
        re.append(dict(n=e["n"], E=210e3, G=210e3/2.6, A=float(c.A), Iy=float(c.I[0]), Iz=float(c.I[1]),
                       It=float(c.It), ref=ref))
    fr = Frame3D(s["nodes"], re, s["supports"])
    U, R = fr.solve([(n, np.array(v)*f) for n, v, f in s["loads"]])
    if fr.cond > 1e8:
        raise vm.CaseSkip("ill conditioned")
    fem = FF.FrameFEM()
    for p in s["nodes"]:
        fem.add_node(*p)
    mat = fem.add_material(210e3, 0.3, 7.85e-6)
    els = []
    for e in s["elems"]:
        nref = None if e["ref"] is None else FF.FEMNode(-1, *e["ref"])
        el = EBBeam3D(fem.nodes[e["n"][0]], fem.nodes[e["n"][1]], secs[e["sec"]], mat, nref)
        els.append(el)
        fem.add_element(el)
    for nid, d in s["supports"]:
        fem.add_support(1, nid, list(d), 0)
    for nid, v, f in s["loads"]:
        fem.add_load(FF.PointLoad(3, fem.nodes[nid], list(v), f))
    fem.add_loadcase(1, 3)
    fem.nodal_dofs()
    fem.linear_statics(3, support_method=r.choice(["REM", "ZERO"]))
    u = max(np.max(np.abs(U[:, :3])), 1e-9)
    th = max(np.max(np.abs(U[:, 3:])), 1e-12)
    u, th = max(u, th*2000), max(th, u/1e4)
    for i, n in enumerate(fem.nodes):
        mon.close("displacements3d", n.u[3][:3], U[i, :3], 0, 3e-4*u, "node %d" % i)
        mon.close("rotations3d", n.u[3][3:], U[i, 3:], 0, 3e-4*th, "node %d" % i)
    F = max(max(np.max(np.abs(x[[0, 1, 2, 6, 7, 8]])) for x in R), 1e-3)
    M = max(max(np.max(np.abs(x[[3, 4, 5, 9, 10, 11]])) for x in R), 1.0)
    F, M = max(F, M/5000), max(M, F*1.0)
    for k, (el, x) in enumerate(zip(els, R)):
        f = el.fint[3]
        mon.close("axial3d", f["fx"], [-x[0], x[6]], 0, 3e-4*F, "element %d" % k)
        mon.close("torsion3d", f["mx"], [-x[3], x[9]], 0, 3e-4*M, "element %d" % k)
        mon.close("shear3d", np.abs(np.r_[f["fy"], f["fz"]]), np.abs([x[1], x[7], x[2], x[8]]), 0, 3e-4*F, "element %d" % k)
        mon.close("moment3d", np.abs(np.r_[f["my"], f["mz"]]), np.abs([x[4], x[10], x[5], x[11]]), 0, 3e-4*M, "element %d" % k)
    mon.nontrivial((s["family"], len(els), round(float(u), 6)))


WORKLOADS = dict(space=(space, 1500, 20000))
MONITORS = ["displacements3d", "rotations3d", "axial3d", "torsion3d", "shear3d", "moment3d"]
if __name__ == "__main__":
    vm.main(globals())
