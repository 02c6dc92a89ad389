"""Stability: linear buckling load factors/modes and second order analysis."""
import math
import vm
import femgen as G
from ref.frames import Frame2D, kg_beam
import metku.framefem.framefem as FF
from metku.framefem.elements import EBBeam, Rod
from metku.framefem.elements.springs import LinearSpring
import metku.sections.steel as _s
from metku.sections.steel.ISection import HEA, IPE
MODS = (FF, EBBeam, Rod, LinearSpring)
np = vm.np

PROPERTY = "F03"
RULE = ("random rigid-jointed beam structures under nodal and transverse member loads at load levels from far below to "
        "far above the critical one; reference: generalised eigenproblem assembled independently (buckling), exact "
        "stability functions obtained by solving the beam-column differential equation (second order); Euler columns "
        "with known solutions; non-trivial = distinct structure with members in compression")


def beam_spec(r, hinges=False, steel=False):
    spec = G.gen_spec(r, family=r.choice(["portal", "beam", "tree", "arch"]), ncases=1)
    if not hinges:
        for e in spec["elems"]:
            e["rel"] = []
    lid = list(spec["cases"])[0]
    lds = []
    for l in spec["cases"][lid]:
        if l["kind"] == "l":
            l = dict(l, coords="local", dir="y", q=[l["q"][0]]*2)
        lds.append(l)
    # gravity-like nodal loads so that there is compression
    for _ in range(r.randint(1, 3)):
        lds.append(dict(kind="p", node=r.randrange(len(spec["nodes"])),
                        v=[r.uniform(-1e4, 1e4), -r.uniform(1e4, 5e5), 0.0], f=1.0))
    spec["cases"] = {lid: lds}
    return spec, lid


def buckling(r, mon):
    spec, lid = beam_spec(r)
    mon.case(spec)
    scale = 10**r.uniform(-1.5, 1.5)
    for l in spec["cases"][lid]:
        l["f"] = l["f"]*scale
    U, R, _, fr = G.ref_solve(spec)[lid]
    N = [x[3] for x in R]
    k = r.randint(1, 5)
    if len(fr.free) == 0:
        raise vm.CaseSkip("nothing free")
    ref = fr.buckling(N, k)
    if min(N) > -1e-3*max(1.0, max(abs(x) for x in N)) or len(ref) < 1 or ref[0] > 1e8:
        raise vm.CaseSkip("no compression")
    fem, els, h = G.build_metku(spec, MODS)
    w, modes, KG = fem.linear_buckling(lid, k=k)
    if r.random() < 0.4:
        mon.note("repeated")
        w, modes, KG = fem.linear_buckling(lid, k=k)
    w = np.asarray(w, float)
    pos = np.sort(w[w > 0])
    pos, ref = pos[pos < 1e6*ref[0]], ref[ref < 1e6*ref[0]]
    mon.ok("number_of_factors", len(pos) == len(ref), "%d factors, expected %d: %s vs %s" % (len(pos), len(ref), w, ref))
    m = min(len(pos), len(ref))
    for i in range(m):
        if ref[i] < 1e6*ref[0]:
            mon.close("load_factors", pos[i], ref[i], 2e-3, 0, "mode %d of %s" % (i, ref))
    # buckling modes: zero at the supports, satisfy the eigenvalue equation of the
    # reference stiffness matrices (nodal values as reported by the nodes)
    K = fr.K()
    KGr = fr.K(lambda ie, e: kg_beam(N[ie], fr.geo(e)[0]))
    for i, lam in enumerate(w[:m]):
        if not lam > 0 or lam > 1e4*ref[0]:
            continue
        v = np.zeros(fr.nd)
        for a, n in enumerate(fem.nodes):
            for d in range(3):
                v[fr.dof[a, d]] = n.v[i][d]
        f = fr.free
        mon.ok("mode_supports", all(v[d] == 0 for d in fr.fixed), "mode %d moves a support" % i)
        a, b = K[np.ix_(f, f)] @ v[f], KGr[np.ix_(f, f)] @ v[f]
        rr = a + lam*b
        res = math.sqrt(abs(rr @ np.linalg.solve(K[np.ix_(f, f)], rr)))/max(math.sqrt(abs(v[f] @ a)), 1e-300)
        mon.ok("mode_equation", res < 0.02, "mode %d residual %g" % (i, res))
    mon.note("critical_below_1" if ref[0] < 1 else "critical_above_1")
    mon.nontrivial((spec["family"], len(spec["elems"]), round(float(ref[0]), 5)))


EULER = {"pp": 1.0, "ff": 0.5, "fp": 0.69915566, "free": 2.0}


def euler(r, mon):
    bc = r.choice(list(EULER))
    L = r.uniform(1500, 12000)
    n = r.randint(6, 10)
    A, I = G.rnd_section(r)
    ang = r.uniform(-math.pi, math.pi) if r.random() < .5 else math.pi/2
    c, s = math.cos(ang), math.sin(ang)
    Pcr = math.pi**2*G.E_S*I/(EULER[bc]*L)**2
    P = Pcr*10**r.uniform(-2, 2)
    mon.case(dict(bc=bc, L=L, n=n, A=A, I=I, angle=ang, P=P))
    fem = FF.FrameFEM()
    for i in range(n+1):
        fem.add_node(c*L*i/n, s*L*i/n)
    mat = fem.add_material(G.E_S, 0.3, 7.85e-6)
    sec = FF.BeamSection(A, I)
    for i in range(n):
        fem.add_element(EBBeam(fem.nodes[i], fem.nodes[i+1], sec, mat))
    fem.add_support(1, 0, [0, 1, 2] if bc in ("ff", "fp", "free") else [0, 1])
    if bc != "free":
        if ang != math.pi/2:
            # inclined roller: a very stiff link perpendicular to the member
            fem.add_node(c*L - s*1000, s*L + c*1000)
            fem.add_support(1, n+1, [0, 1])
            fem.add_element(LinearSpring(fem.nodes[n], fem.nodes[n+1], 1e9))
            raise vm.CaseSkip("springs have no geometric stiffness")
        fem.add_support(1, n, [0, 2] if bc == "ff" else [0])
    fem.add_load(FF.PointLoad(2, fem.nodes[n], [-P*c, -P*s, 0], 1.0))
    fem.add_loadcase(1, 2)
    fem.nodal_dofs()
    w, _, _ = fem.linear_buckling(2, k=r.randint(1, 3))
    w = np.asarray(w)
    mon.close("euler_load", np.min(w[w > 0])*P, Pcr, 4e-3, 0, "%s column" % bc)
    mon.nontrivial((bc, n, round(L)))


# --- second order -------------------------------------------------------------

def stab(EI, L, P):
    """exact end stiffness (transverse, 4x4) and fixed-end loads of unit q, for
    compression P>0, from EI v'''' + P v'' = q"""
    k = math.sqrt(P/EI)

    def rows(x):
        # v, v', V=-(EI v''' + P v'), M=EI v''   for [1, x, sin kx, cos kx]
        sn, cs = math.sin(k*x), math.cos(k*x)
        v = np.array([1, x, sn, cs])
        dv = np.array([0, 1, k*cs, -k*sn])
        M = EI*np.array([0, 0, -k*k*sn, -k*k*cs])
        Q = -(EI*np.array([0, 0, -k**3*cs, k**3*sn]) + P*dv)
        return v, dv, Q, M
    v0, d0, Q0, M0 = rows(0)
    v1, d1, Q1, M1 = rows(L)
    C = np.array([v0, d0, v1, d1])
    # end forces acting on the element: node 1: (-Q, -M), node 2: (Q, M) with the
    # signs of beam statics: shear up at start = -Q(0) ...
    Fm = np.array([-Q0, -M0, Q1, M1])
    K = Fm @ np.linalg.inv(C)
    # particular solution q x^2/(2P)
    vp = np.array([0, 0, L*L/(2*P), L/P])
    Qp = lambda x: -(P*x/P)
    Mp = EI/P
    fp = np.array([-Qp(0), -Mp, Qp(L), Mp])
    fe = fp - K @ vp
    return K, -fe


def second_order(r, mon):
    spec, lid = beam_spec(r, hinges=True)
    prof = []
    for e in spec["elems"]:
        if r.random() < .5:
            s = HEA(r.choice([100, 140, 200, 260, 300, 400]))
        else:
            s = IPE(r.choice([120, 200, 300, 400]))
        prof.append(s)
        e.update(A=float(s.A), I=float(s.I[0]), E=210e3)
    mon.case(spec)
    res1 = G.ref_solve(spec)
    U, R, _, fr = res1[lid]
    N = [x[3] for x in R]
    if len(fr.free) == 0:
        raise vm.CaseSkip("nothing free")
    lam = fr.buckling(N, 1) if not any(e["rel"] for e in spec["elems"]) else fr.buckling(N, 1)
    target = r.uniform(1.3, 6)
    f = lam[0]/target if len(lam) else 1.0
    f = min(f, 50.0)
    for l in spec["cases"][lid]:
        l["f"] = l["f"]*f
    res1 = G.ref_solve(spec)
    U, R, _, fr = res1[lid]
    N = [x[3] for x in R]
    amax = 0

    def kf(ie, e):
        L = fr.geo(e)[0]
        k0 = fr.klocal(e)
        al = math.sqrt(max(-N[ie], 0)/(e["E"]*e["I"]))*L
        if N[ie] < 0 and al > 1e-2:
            if al > 5.0:
                raise vm.CaseSkip("element buckles locally")
            K4, _ = stab(e["E"]*e["I"], L, -N[ie])
            ix = [1, 2, 4, 5]
            k0[np.ix_(ix, ix)] = K4
        return k0

    def ef(ie, e, lds):
        L = fr.geo(e)[0]
        f0 = fr.eload(e, lds)
        al = math.sqrt(max(-N[ie], 0)/(e["E"]*e["I"]))*L
        if N[ie] < 0 and al > 1e-2:
            q = sum(l["f"]*l["q"][0] for l in lds)
            _, f4 = stab(e["E"]*e["I"], L, -N[ie])
            f0[[1, 2, 4, 5]] = q*f4
        return f0
    pl, ll = G.ref_loads(spec["cases"][lid])
    try:
        U2, R2 = fr.solve(pl, ll, kfun=kf, efun=ef)
    except np.linalg.LinAlgError:
        raise vm.CaseSkip("unstable")
    K = fr.K(kf)[np.ix_(fr.free, fr.free)]
    ev = np.linalg.eigvalsh(K*np.outer(1/np.sqrt(np.diag(fr.K())[fr.free]), 1/np.sqrt(np.diag(fr.K())[fr.free])))
    if ev[0] < 1e-6 or fr.cond > 1e6:
        raise vm.CaseSkip("at or beyond the critical load")
    fem, els, h = G.build_metku(spec, MODS)
    for el, s in zip(els, prof):
        el.section = s
    fem.second_order_analysis(lid, support_method=r.choice(["REM", "ZERO"]))
    if r.random() < .3:
        mon.note("repeated")
        fem.second_order_analysis(lid, support_method=r.choice(["REM", "ZERO"]))
    res2 = {lid: (U2, R2, None, fr)}
    G.compare(mon, spec, els, fem.nodes, res2, [lid], tol=2e-3, prefix="second_order_", order=2)
    G.compare(mon, spec, els, fem.nodes, res1, [lid], tol=2e-3, prefix="first_order_of_second_", order=1)
    amp = np.max(np.abs(U2))/max(np.max(np.abs(U)), 1e-12)
    mon.note("amplification>1.1" if amp > 1.1 else "amplification<=1.1")
    if any(l["kind"] == "l" for l in spec["cases"][lid]):
        mon.note("with_member_load")
    mon.nontrivial((spec["family"], len(spec["elems"]), round(float(amp), 6)))


WORKLOADS = dict(buckling=(buckling, 2000, 30000), euler=(euler, 400, 4000), second_order=(second_order, 2000, 30000))
MONITORS = ["load_factors", "number_of_factors", "mode_equation", "mode_supports", "euler_load",
            "second_order_displacements", "second_order_bending_moment", "first_order_of_second_displacements"]
ASSUMPTIONS = ["buckling: rigidly connected beam elements and axial forces constant along each element (hinges and rods "
               "have no consistent geometric stiffness in the code base)",
               "second order: uniform transverse member loads; members in tension keep their first order stiffness, as "
               "documented in the code"]
if __name__ == "__main__":
    vm.main(globals())
