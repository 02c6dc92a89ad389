"""M02: verification of steel members covers every section and stability check."""
import os, sys, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vm
sys.path.insert(0, vm.VERIF)
sys.path.insert(0, os.path.join(vm.VERIF, "checks"))
import numpy as np
from ref import ec3
import s03
from s03 import ref_class, make, FY

PROPERTY = "M02"
RULE = ("one case is one member object with random sections along it (axial force, moment, shear of any sign), driven through a random history of design runs, "
        "single checks, changes of forces, length, buckling lengths, profile and sway; each result is compared with an independent evaluation of 6.2 and 6.3 "
        "for the current state. Non-trivial: distinct (family, class, governing check, compression, LTB).")
MONITORS = ["section checks", "flexural buckling", "LTB", "beam-column", "design", "extremes", "repeatable"]

from metku.structures.steel.steel_member import SteelMember
from metku.sections.steel.RHS import RHS
from metku.sections.steel.CHS import CHS

E, G = 210e3, 81e3


def section_util(s, g, fy, N, M, V):
    """(list of 4 ratios) or None when it is not judged"""
    e = ec3.eps(fy)
    c, bord = ref_class(g, s, N, M, e)
    if bord or c > 3:
        return None
    W = s.Wpl if c < 3 else s.Wel
    A = s.A
    UN, UV, UM = abs(N) / (A * fy), abs(V) / (s.Ashear[1] * fy / math.sqrt(3)), abs(M) / (W[0] * fy)
    if abs(UN - 1) < 1e-5:
        return None
    UMN = UN + UM
    if c < 3 and UN < 1:
        if isinstance(g, float):
            f = 1 - UN ** 1.7
        else:
            f = min((1 - UN) / (1 - 0.5 * min((A - g.Af) / A, 0.5)), 1.0)
        UMN = UM / f
    return [UN, UV, UM, UMN]


class State:
    pass


def expected(st):
    """reference results or None"""
    s, g, fy, L = st.s, st.g, st.fy, st.L
    R = State()
    R.sec = {}
    for x, (N, M, V, Mz) in st.forces.items():
        u = section_util(s, g, fy, N, M, V)
        if u is None:
            return None
        R.sec[x] = u
    R.rsec = max(max(u) for u in R.sec.values())
    Nc = min([0.0] + [f[0] for f in st.forces.values()])
    My = max(abs(f[1]) for f in st.forces.values())
    Mzmax = max(abs(f[3]) for f in st.forces.values())
    R.Nc, R.My = Nc, My
    lam = np.sqrt(s.A * fy / (math.pi ** 2 * E * np.asarray(s.I) / (L * np.asarray(st.lcr)) ** 2))
    Nb = [s.A * fy * ec3.chi(l, a) for l, a in zip(lam, s.imp_factor)]
    R.buck = [-Nc / n for n in Nb]
    R.bc = [0.0, 0.0]
    c, bord = ref_class(g, s, Nc, My, ec3.eps(fy))
    if bord or c > 3:
        return None
    R.c = c
    MRd = (s.Wpl if c < 3 else s.Wel)[0] * fy
    R.rLT = None
    if st.ltb:
        Iz, It, Iw = s.I[1], s.It, s.Iw
        Mcr = 1.12 * math.pi / L * math.sqrt(E * Iz * (G * It + math.pi ** 2 * E * Iw / L ** 2))
        ll = math.sqrt(MRd / Mcr)
        if abs(ll / 0.4 - 1) < 1e-6 or abs(My / Mcr / 0.16 - 1) < 1e-6:
            return None
        x = 1.0
        if ll > 0.4 and My / Mcr > 0.16:
            p = 0.5 * (1 + s.imp_factor_LT * (ll - 0.4) + 0.75 * ll * ll)
            x = min(1.0, 1 / ll ** 2, 1 / (p + math.sqrt(p * p - 0.75 * ll * ll)))
        R.rLT = My / (x * MRd)
        MRd = x * MRd
    if My >= 1e-6:
        cmf = 0.9 if st.sway else ec3.cm([st.forces[0.0][1], st.forces[1.0][1]], st.forces.get(0.5, (0, None))[1], "uniform")
        kyy = ec3.kyy(R.buck[0], lam[0], cmf, c)
        if st.ltb:
            kzy = ec3.kzy_tors(R.buck[1], lam[1], 1.0, c)
        else:
            kzy = 0.0 if Mzmax == 0 else kyy * (0.6 if c < 3 else 0.8)
        R.bc = [R.buck[0] + kyy * My / MRd, R.buck[1] + kzy * My / MRd]
    R.design = R.rsec
    if st.ltb:
        R.design = max(R.design, R.rLT)
    if Nc < 0:
        R.design = max(R.design, *R.buck, *R.bc)
    return R


def random_forces(r, s, st):
    f = s.fy
    NRd, MRd, VRd = s.A * f, s.Wel[0] * f, s.Ashear[1] * f / math.sqrt(3)
    xs = [0.0, 1.0] + ([0.5] if r.random() < 0.6 else []) + [round(r.uniform(0.05, 0.95), 3) for _ in range(r.randint(0, 4))]
    xs = list(dict.fromkeys(x for x in xs))
    r.shuffle(xs)
    nmode = r.choice(["comp", "comp", "tens", "mixed", "zero"])
    mmode = r.choice(["any", "any", "zero", "small"])
    zmode = r.random() < 0.3
    nl, ml = r.choice([0.05, 0.4, 0.9]), r.choice([0.1, 0.5, 1.0])
    F = {}
    for x in xs:
        N = {"comp": -r.uniform(0.2, 1), "tens": r.uniform(0.2, 1), "mixed": r.uniform(-1, 1), "zero": 0.0}[nmode] * nl * NRd
        M = {"any": r.uniform(-1, 1), "zero": 0.0, "small": r.uniform(-1, 1) * 0.01}[mmode] * ml * MRd
        F[x] = (N, M, r.uniform(-1, 1) * VRd * r.choice([0.1, 0.5, 1.0]), r.uniform(-1, 1) * 1e6 if zmode else 0.0)
    return F


def apply_forces(m, st, r):
    if r.random() < 0.7:
        m.clear_sections()
    else:
        # overwrite existing locations, drop the others
        for x in list(m.sections):
            if x not in st.forces:
                del m.sections[x]
    for x, (N, M, V, Mz) in st.forces.items():
        m.add_section(ned=N, myed=M, vzed=V, mzed=Mz, loc=x)


def w_member(r, mon):
    st = State()

    def new_profile():
        while True:
            s, g, tag, mat = make(r)
            if tag.startswith(("WI", "WQ")) or mat in ("S220GD", "S700"):
                continue
            return s, g, tag, mat
    st.s, st.g, st.tag, mat = new_profile()
    st.fy = FY[mat]
    st.L = math.sqrt(st.s.I[1] / st.s.A) * r.choice([r.uniform(5, 50), r.uniform(40, 200)])
    st.lcr = [r.uniform(0.5, 2.0), r.uniform(0.5, 1.2)]
    st.ltb = r.random() < 0.4 and not isinstance(st.s, CHS)
    st.sway = r.random() < 0.3
    mon.case(dict(tag=st.tag, section=repr(st.s), L=st.L, ltb=st.ltb))
    m = SteelMember(st.s, st.L, Lcr=st.lcr, LT_buckling=st.ltb)
    st.forces = random_forces(r, st.s, st)
    apply_forces(m, st, r)
    hist = []
    for step in range(r.randint(1, 5)):
        R = expected(st)
        d = "%s %r L=%.0f lcr=%s ltb=%s sway=%s forces=%s history=%s" % (st.tag, st.s, st.L, st.lcr, st.ltb, st.sway, st.forces, hist)
        if R is not None:
            mon.close("extremes", [m.NcEd, m.MEdY, m.NEd, m.VEdZ, m.MEdZ, m.nsect()],
                      [R.Nc, R.My, max(abs(f[0]) for f in st.forces.values()), max(abs(f[2]) for f in st.forces.values()),
                       max(abs(f[3]) for f in st.forces.values()), len(st.forces)], 1e-12, 0, d)
            for q in [r.choice(["design", "sec", "buck", "bc", "lt", "one"]) for _ in range(r.randint(1, 4))] + ["design"]:
                if q == "design":
                    v = m.design(sway=st.sway)
                    mon.close("design", v, R.design, 1e-7, 1e-12, d)
                    mon.close("repeatable", m.design(sway=st.sway), v, 1e-12, 0, d)
                    for x, u in R.sec.items():
                        k = m.sections[x]["utilization"]
                        mon.close("section checks", [k["n"], k["vz"], k["my"], k["mny"]], u, 1e-7, 1e-12, d + " at %s" % x)
                    if R.Nc < 0:
                        mon.close("flexural buckling", [m.stability["buck_y"], m.stability["buck_z"]], R.buck, 1e-8, 1e-12, d)
                        if R.My >= 1e-6:
                            mon.close("beam-column", [m.stability["bc_y"], m.stability["bc_z"]], R.bc, 1e-7, 1e-12, d)
                elif q == "sec":
                    mon.close("section checks", m.check_sections(), R.rsec, 1e-7, 1e-12, d)
                elif q == "one":
                    x = r.choice(list(R.sec))
                    mon.close("section checks", m.check_section(x), R.sec[x], 1e-7, 1e-12, d)
                elif q == "buck":
                    mon.close("flexural buckling", m.check_buckling(), R.buck, 1e-8, 1e-12, d)
                elif q == "bc":
                    mon.close("beam-column", m.check_beamcolumn(sway=st.sway), R.bc, 1e-7, 1e-12, d)
                elif q == "lt" and st.ltb:
                    mon.close("LTB", m.check_LT_buckling(), R.rLT, 1e-7, 1e-12, d)
            gov = "sec" if R.design == R.rsec else "LT" if R.design == R.rLT else "buck" if R.design in R.buck else "bc"
            mon.nontrivial((st.tag[:3], R.c, gov, R.Nc < 0, st.ltb, st.sway))
        k = r.choice(["forces", "forces", "length", "lcr", "profile", "one", "sway", "all"])
        hist.append(k)
        if k == "forces":
            st.forces = random_forces(r, st.s, st)
            apply_forces(m, st, r)
        elif k == "length":
            st.L *= r.uniform(0.4, 2)
            m.length = st.L
        elif k == "lcr":
            st.lcr = [r.uniform(0.5, 2.0), r.uniform(0.5, 1.2)]
            m.lcr = np.array(st.lcr)
        elif k == "profile":
            st.s, st.g, st.tag, mat = new_profile()
            st.fy = FY[mat]
            if isinstance(st.s, CHS):
                st.ltb = m.LTB = False
            m.profile = st.s
        elif k == "one":
            x = r.choice(list(st.forces))
            N, M, V, Mz = random_forces(r, st.s, st)[0.0]
            st.forces[x] = (N, M, V, Mz)
            m.add_section(ned=N, myed=M, vzed=V, mzed=Mz, loc=x)
        elif k == "all":
            N = -0.3 * st.s.A * st.fy * r.random()
            st.forces = {x: (N,) + f[1:] for x, f in st.forces.items()}
            m.ned = N
        else:
            st.sway = not st.sway


WORKLOADS = {"member": (w_member, 2000, 40000)}

if __name__ == "__main__":
    vm.main(globals())
