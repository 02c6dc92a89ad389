"""W02: timber members: design strengths, section, stability and apex checks of EN 1995-1-1."""
import os, sys, math, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vm
import numpy as np
import w01
from w01 import T, TS, SOLID, GLT, LVL, Spec, height, face
from metku.structures.timber.timber_member import TimberMember      # on its own, before the frames
import metku.frame2d as frame2d
from metku.eurocodes.en1995.en1995_1_1 import kmod, kdef
from metku.materials import timber_data

PROPERTY = "W02"
RULE = ("one case is one or two timber members alive together (prismatic, mono-pitch, ridge, curved or pitched cambered; solid timber, hardwood, glued laminated timber, LVL on edge; beams, columns and other members; all load durations and service classes; lateral supports in both planes; fixed, hinged or sliding ends or given buckling factors; "
        "internal forces of both signs at unevenly spaced sections) taken through random changes of dimensions, forces, lateral supports, end stiffnesses, edge of the load and fire, with every utilization ratio asked in random order; compared with a separate implementation of the rules evaluated from scratch, and with the identities (signs, superposed scaling, order). "
        "Non-trivial: distinct (kind, timber type, member type, signs of forces, number of lateral supports, last change).")
MONITORS = ["design strength", "size factor", "modification factor", "section forces", "axial", "shear", "shear reduction", "bending", "torsion", "torsion constant", "bending and tension", "bending and compression", "segments", "buckling length",
            "slenderness", "buckling factor", "buckling", "critical bending stress", "lateral buckling", "design", "bracing", "tapered edge", "apex factors", "apex volume", "apex moment", "apex checks", "symmetry", "independence"]

GM = {"S": 1.3, "G": 1.25, "L": 1.2}
KMOD = {"perm": (0.6, 0.5), "lt": (0.7, 0.55), "mt": (0.8, 0.65), "st": (0.9, 0.7), "inst": (1.1, 0.9)}
KDEF = {1: 0.6, 2: 0.8, 3: 2.0}
KM = 0.7


def fam(t):
    return "S" if t.name[0] in "CD" else "G" if t.name.startswith("GL") else "L"


def raw(t):
    return {"S": timber_data.solid_timber, "G": timber_data.glt, "L": timber_data.lvl}[fam(t)][t]


def saint_venant(n):
    """torsion constant and modulus factors (h b^3, h b^2) of a rectangle with side ratio n >= 1, exact series"""
    s = sum(math.tanh(k * math.pi * n / 2) / k ** 5 for k in range(1, 40, 2))
    a = (1 - 192 / math.pi ** 5 / n * s) / 3
    q = sum(1 / (k * k * math.cosh(min(k * math.pi * n / 2, 700))) for k in range(1, 40, 2))
    return a, a / (1 - 8 / math.pi ** 2 * q)


class Obj:
    pass


def mksection(r, kind=None):
    s = Spec()
    s.kind = kind or r.choice(["prism", "prism", "prism", "mono", "ridge", "curved", "cambered"])
    s.mat = r.choice([r.choice(SOLID), r.choice(GLT), r.choice(LVL)])
    s.B = r.choice([45.0, 90.0, 140.0, 190.0, r.uniform(40, 300)])
    s.H = r.choice([95.0, 120.0, 150.0, 225.0, 405.0, 600.0, 630.0, r.uniform(60, 1200)])
    if s.kind != "prism":
        s.H = max(s.H, 200.0)
    s.L = s.H * r.uniform(8, 40) if s.kind == "prism" else s.H * r.uniform(12, 40)
    s.R, s.onfire = 0, 3
    s.fp = dict.fromkeys(("right", "left", "top", "bottom"))
    kw = dict(material=s.mat)
    if s.kind == "prism":
        o = TS.TimberSection(s.B, s.H, **kw)
    elif s.kind == "mono":
        s.Hap, s.flip = s.H * r.uniform(1.02, 2.0), r.random() < 0.5
        o = TS.PulpettiPalkki(s.B, s.H, s.Hap, flipped=s.flip, **kw)
    elif s.kind == "ridge":
        s.Hap, s.xap = s.H * r.uniform(1.02, 2.0), 0.5
        o = TS.HarjaPalkki(s.B, s.H, s.Hap, 0.5, **kw)
    else:
        s.beta = r.uniform(2, 14)
        s.alpha = s.beta + (0 if s.kind == "curved" and r.random() < 0.6 else r.uniform(0, 4))
        s.r = r.uniform(0.2, 0.45) * s.L / math.sin(math.radians(s.alpha))
        s.t = r.choice([20, 33, 45, r.uniform(15, 60)])
        o = (TS.KaarevaPalkki if s.kind == "curved" else TS.KaarevaHarjaPalkki)(s.B, s.H, s.alpha, s.beta, s.r, t=s.t, **kw)
        s.xap = 0.5
    if s.kind != "prism":
        o.num_elements = r.randint(1, 6)
    return s, o


def supports(r, s):
    """end supports: kinds of start and end as frame supports, or none"""
    s.sup = r.choice([("F", "F"), ("H", "H"), ("F", "H"), ("H", "F"), ("F", "Y"), ("Y", "F"), ("H", "Y"), ("Y", "H"), ("F", "X"), ("X", "F"), ("H", "X"), ("X", "H"), ("F", None), (None, "F"), ("H", None), (None, "H")])


CLS = {"F": frame2d.FixedSupport, "H": frame2d.XYHingedSupport, "X": frame2d.XHingedSupport, "Y": frame2d.YHingedSupport}


def mkmember(r, kind=None):
    s, o = mksection(r, kind)
    supports(r, s)
    s.mtype = r.choice(["beam", "beam", "rigid-beam", "column", "other"])
    s.ldc, s.sc, s.varn = r.choice(list(KMOD)), r.choice([1, 2, 3]), r.random() < 0.3
    s.Sj = [r.choice([0, 500.0, 1e6, 1e15, np.inf]) for _ in (0, 1)]
    s.lat = [sorted({round(r.uniform(0.1, 0.9), 3) for _ in range(r.choice([0, 0, 1, 2, 3]))}) for _ in (0, 1)]
    s.edge = r.choice(["compression", "tension", "other"])
    s.bf = r.choice([None, None, None, r.uniform(0.5, 2.2), [r.uniform(0.5, 2.2), r.uniform(0.5, 2.2)]])
    s.kvol = r.choice([None, None, None, r.uniform(0.3, 1)])
    p = Obj()
    p.length = s.L
    p.n1, p.n2, p.frame2d = Obj(), Obj(), Obj()
    d = (s.L, 0.0) if s.mtype != "column" else (0.0, s.L)
    a = (r.choice([0, 1000.0]), r.choice([0, 500.0]))
    c1, c2 = list(a), [a[0] + d[0], a[1] + d[1]]
    p.n1.coord, p.n2.coord = [round(x, 3) for x in c1], [round(x, 3) for x in c2]
    p.frame2d.supports = {i: CLS[k](c) for i, (k, c) in enumerate(zip(s.sup, (c1, c2))) if k}
    if r.random() < 0.5:
        p.frame2d.supports[7] = frame2d.FixedSupport([-777.0, 3.0])    # support of another member
    s.oh = []
    for n in (p.n1, p.n2):
        n.parents = []
        oh = r.choice([None, 200.0, 400.0]) if r.random() < 0.5 else None
        s.oh.append(oh)
        if oh:
            q = Obj()
            q.member, q.cross_section = Obj(), Obj()
            q.cross_section.H = oh
            n.parents.append(q)
    p.loads = []
    ly, lz = list(s.lat[0]), list(s.lat[1])
    r.shuffle(ly)
    r.shuffle(lz)
    m = TimberMember(o, o.material, s.L, s.ldc, s.sc, s.mtype, s.varn, s.Sj[0], s.Sj[1], nodes={}, parent=p,
                     lateral_support_y=ly if ly or r.random() < 0.5 else None, lateral_support_z=lz if lz or r.random() < 0.5 else None,
                     edge_load=s.edge, beta=s.bf, k_vol=s.kvol)
    for n in (p.n1, p.n2):
        me = Obj()
        me.member = m
        n.parents.append(me) if r.random() < 0.5 else n.parents.insert(0, me)
    o.timber_member = m
    o.parent = p
    if s.kind in ("curved", "cambered"):
        o.update_circles()
    if s.kind != "prism":
        o.create_elements()
    m.calc_l_c()
    s.forces = []
    forces(r, s, m)
    return s, m


def forces(r, s, m):
    if s.forces:
        m.clear_sections()
    locs = {0.0, 1.0} | set(s.lat[0]) | set(s.lat[1]) | {round(r.random(), 4) for _ in range(r.randint(1, 8))}
    if r.random() < 0.6:
        locs.add(0.5)
    mode = r.choice(["mixed", "compression", "compression", "tension", "none"])
    planar = r.random() < 0.4
    A, W = s.B * s.H, s.B * s.H ** 2 / 6
    k = r.choice([0.1, 1.0, 3.0])
    pos = r.random() < 0.4
    s.forces = []
    for x in sorted(locs):
        n = k * A * r.uniform(0, 4) * {"mixed": r.choice([-1, 1]), "compression": -1, "tension": 1, "none": 0}[mode]
        my = k * W * r.uniform(-4, 4)
        if pos:
            my = abs(my)
        mz = 0.0 if planar else k * W * s.B / s.H * r.uniform(-4, 4)
        vy = 0.0 if planar else k * A * r.uniform(-0.4, 0.4)
        t = 0.0 if planar else k * s.B ** 2 * s.H / 4 * r.uniform(-0.5, 0.5)
        f = [n, my, mz, vy, k * A * r.uniform(-0.8, 0.8), t, x]
        if r.random() < 0.1:
            f = [0.0] * 6 + [x]
        s.forces.append(f)
        m.add_section(*f)
    s.mode = mode


def change(r, s, m):
    o = m.section
    k = r.choice(["B", "H", "forces", "forces", "lat", "Sj", "edge", "R", "varnished", "beta", "one force"])
    if k == "B":
        s.B *= r.uniform(0.7, 1.4)
        if r.random() < 0.5:
            m.b = s.B
        else:
            o.B = s.B
    elif k == "H":
        h = s.H * r.uniform(0.8, 1.2)
        if s.kind == "ridge":
            h = min(h, 0.98 * s.Hap)
        elif s.kind == "mono":
            h = min(h, 0.98 * s.Hap)
        if s.kind in ("curved", "cambered"):
            o.H0 = h
        elif r.random() < 0.5:
            m.h = h
        else:
            o.H = h
        s.H = h
    elif k == "forces":
        forces(r, s, m)
    elif k == "one force":
        i, j = r.randrange(len(s.forces)), r.randrange(6)
        v = s.forces[i][j] * r.uniform(-2, 2)
        s.forces[i][j] = v
        [m.ned, m.myed, m.mzed, m.vyed, m.vzed, m.ted][j][i] = v
    elif k == "lat":
        ax = r.randint(0, 1)
        s.lat[ax] = sorted({round(r.uniform(0.1, 0.9), 3) for _ in range(r.choice([0, 1, 2, 3]))})
        l = list(s.lat[ax])
        r.shuffle(l)
        if ax == 0:
            m.lateral_support_y = l
        else:
            m.lateral_support_z = l
        m.calc_l_c()
        forces(r, s, m)
    elif k == "Sj":
        i = r.randint(0, 1)
        s.Sj[i] = r.choice([0, 500.0, 1e6, 1e15, np.inf])
        setattr(m, "Sj%d" % (i + 1), s.Sj[i])
    elif k == "edge":
        s.edge = r.choice(["compression", "tension", "other"])
        m.edge_load = s.edge
    elif k == "R":
        bn = w01.rates(s.mat)[1]
        t = r.choice([0, 0, 15, 30])
        if min(s.B, s.H) - 2 * (bn * t + 7) < 20 and t:
            return None
        s.R = t
        m.R = t
    elif k == "varnished":
        s.varn = not s.varn
        m.varnished = s.varn
    elif k == "beta":
        s.bf = r.choice([None, r.uniform(0.5, 2.2), [r.uniform(0.5, 2.2), r.uniform(0.5, 2.2)]])
        m.beta = s.bf
    return k


# -- rules -----------------------------------------------------------------------------------------------------------
class Ref:
    def __init__(self, s):
        self.s = s
        self.d = raw(s.mat)
        f = fam(s.mat)
        self.f = f
        self.km = KMOD[s.ldc][0 if s.sc < 3 else 1]
        g = self.km / GM[f]
        bn = w01.rates(s.mat)[1]
        c = {k: w01.char(None, bn, s.R) for k in s.fp}
        self.b = s.B - 2 * c["left"]
        self.dh = c["bottom"]
        # nominal depth of the beam: given height at the start
        self.hn = s.H - self.dh
        h, b = self.hn, self.b
        self.kh = self.size(h)
        self.kht = 1.0 if f == "L" else self.size(max(b, h))
        d = self.d
        nmax = max(abs(q[0]) for q in s.forces)
        kL = min(1.1, (3000 / s.L) ** (d["s"] / 2)) if f == "L" and nmax > 0 else 1.0
        self.fm, self.ft = self.kh * d["fmk"] * g, self.kht * kL * d["ft0k"] * g
        self.fc, self.fv = d["fc0k"] * g, d["fvk"] * g
        self.ft90 = d["ft90edgek" if f == "L" else "ft90k"] * g
        self.fc90 = d["fc90edgek" if f == "L" else "fc90k"] * g
        self.E05 = d["E005"]
        self.G05 = d["Gedge005"] if f == "L" else d["G005"]

    def size(self, h):
        if self.f == "S":
            return max(1.0, min(1.3, (150 / h) ** 0.2)) if self.d["rhok"] <= 700 else 1.0
        if self.f == "G":
            return max(1.0, min(1.1, (600 / h) ** 0.1))
        return min(1.2, (300 / h) ** self.d["s"])

    def h(self, x):
        return height(self.s, x) - self.dh

    def A(self, x):
        return self.b * self.h(x)

    def W(self, x):
        h = self.h(x)
        return self.b * h * h / 6, h * self.b ** 2 / 6

    def I(self, x):
        h = self.h(x)
        return self.b * h ** 3 / 12, h * self.b ** 3 / 12

    def sig(self, i):
        n, my, mz, _, _, _, x = self.s.forces[i]
        w = self.W(x)
        return n / self.A(x), my / w[0], mz / w[1]

    def tau(self, i):
        f = self.s.forces[i]
        kcr = 0.67 if self.f in "SG" and not self.s.varn else 1.0
        return max(abs(f[3]), abs(f[4])) * 1.5 / (self.A(f[6]) * kcr)

    def reduced(self, i):
        """section whose shear force is used for section i of a beam (loads close to the supports are left out)"""
        s = self.s
        if s.mtype not in ("beam", "rigid-beam"):
            return i
        z = [((oh or 0) / 2 + self.hn) / s.L for oh in s.oh]
        x = s.forces[i][6]
        if x < z[0]:
            return max(j for j, q in enumerate(s.forces) if q[6] <= z[0])
        if x > 1 - z[1]:
            return min(j for j, q in enumerate(s.forces) if q[6] >= 1 - z[1])
        return i

    def mix(self, p, my, mz):
        return max(p + (abs(my) + KM * abs(mz)) / self.fm, p + (KM * abs(my) + abs(mz)) / self.fm)

    def segs(self, ax):
        p = [0.0] + self.s.lat[ax] + [1.0]
        return list(zip(p, p[1:]))

    def inside(self, a, b):
        return [i for i, q in enumerate(self.s.forces) if a <= q[6] <= b]

    def beta(self, ax):
        s = self.s
        n = len(s.lat[ax]) + 1
        if s.bf is not None:
            return [s.bf[ax] if isinstance(s.bf, list) else s.bf] * n
        rig, hin = [x >= 1e15 for x in s.Sj], [x <= 1e3 for x in s.Sj]
        beam = s.mtype in ("beam", "rigid-beam")
        if not beam and s.mtype != "column":
            return [0.7 if all(rig) else 0.85 if (rig[0] and hin[1]) or (rig[1] and hin[0]) else 1.0] * n
        if n == 1:
            if beam:
                return [1.0 if all(hin) else 0.8 if all(rig) else 0.9 if (rig[0] and hin[1]) or (rig[1] and hin[0]) else 0.85]
            k = "".join(sorted(x or "-" for x in s.sup))
            return [{"FF": 0.7, "HH": 1.0, "FH": 0.85, "FY": 2.2, "HY": 2.0, "FX": 0.85, "HX": 1.0, "-F": 2.2, "-H": 2.0, "--": 1.0}[k]]
        if beam and ax == 1:
            return [1.0] * n

        def end(e):
            if s.sup[e] == "F" or rig[e]:
                return 0.8
            if s.sup[e] == "H" or hin[e]:
                return 1.0
            return 0.85
        return [end(0)] + [0.9 if ax == 0 else 1.0] * (n - 2) + [end(1)]

    def slender(self, ax):
        """(slenderness, relative slenderness) of every segment; radius of gyration at the largest bending stress"""
        out = []
        for (a, b), be in zip(self.segs(ax), self.beta(ax)):
            i = max(self.inside(a, b), key=lambda j: abs(self.sig(j)[1]))
            x = self.s.forces[i][6]
            rad = math.sqrt(self.I(x)[ax] / self.A(x))
            lam = be * (b - a) * self.s.L / rad
            out.append((lam, lam / math.pi * math.sqrt(self.d["fc0k"] / self.E05)))
        return out

    def kc(self, ax):
        bc = 0.2 if self.f == "S" else 0.1
        out = []
        for _, l in self.slender(ax):
            k = 0.5 * (1 + bc * (l - 0.3) + l * l)
            out.append(1 / (k + math.sqrt(k * k - l * l)))
        return out

    def buckling(self):
        out = []
        for ax in (0, 1):
            u = []
            for (a, b), kc in zip(self.segs(ax), self.kc(ax)):
                sg = [self.sig(j) for j in self.inside(a, b)]
                n, my, mz = min(q[0] for q in sg), max(abs(q[1]) for q in sg), max(abs(q[2]) for q in sg)
                w = (1, KM) if ax == 0 else (KM, 1)
                u.append(-n / (kc * self.fc) + (w[0] * my + w[1] * mz) / self.fm if n < 0 else 0.0)
            out.append(max(u))
        return out

    def lef(self, a, b, x):
        return 0.9 * (b - a) * self.s.L + {"compression": 2, "tension": -0.5, "other": 0}[self.s.edge] * self.h(x)

    def sigcrit(self, a, b, x, it):
        return math.pi * math.sqrt(self.E05 * self.I(x)[1] * self.G05 * it) / (self.lef(a, b, x) * self.W(x)[0])

    def kcrit(self, a, b, x, it):
        l = math.sqrt(self.d["fmk"] / self.sigcrit(a, b, x, it))
        return 1.0 if l <= 0.75 else 1.56 - 0.75 * l if l <= 1.4 else 1 / l ** 2


ASK = ["strength", "sections", "stability", "design", "bracing", "apex", "taper", "symmetry"]


def q_strength(r, s, m, mon, R):
    mon.close("modification factor", [m.kmod, m.get_kdef(), m.gammaM], [R.km, KDEF[s.sc], GM[R.f]], 1e-12, 0, "kmod, kdef and gammaM of %s in class %d, %s" % (s.mat.name, s.sc, s.ldc))
    mon.close("size factor", m.section.k_h, R.kh, 1e-12, 0, "size factor in bending, h = %g" % R.h(0))
    for n, v in (("fmd", R.fm), ("ft0d", R.ft), ("fc0d", R.fc), ("fvd", R.fv), ("ft90d", R.ft90), ("fc90d", R.fc90), ("unmodified_fmd", R.fm / R.kh)):
        mon.close("design strength", getattr(m, n), v, 1e-10, 0, n)
    mon.close("design strength", m.unmodified_ft0d, R.d["ft0k"] * R.km / GM[R.f], 1e-10, 0, "ft0d without size factor")


def q_sections(r, s, m, mon, R):
    n = len(s.forces)
    idx = list(range(n))
    r.shuffle(idx)
    mon.close("section forces", [m.NEd, m.MEdY, m.MEdZ], [max(abs(q[j]) for q in s.forces) for j in (0, 1, 2)], 1e-12, 0, "largest forces")
    judge_v = not (R.f == "L" and s.sc == 1)
    for i in idx:
        red = r.random() < 0.5
        u = m.check_section(i, reduce_uv=red)
        a, my, mz = R.sig(i)
        f = s.forces[i]
        mon.close("axial", u[0], a / R.ft if a > 0 else -a / R.fc, 1e-9, 1e-12, "axial force")
        if judge_v:
            j = R.reduced(i) if red else i
            mon.close("shear reduction" if red else "shear", u[1], R.tau(j) / R.fv, 1e-9, 1e-12, "shear at %g, reduced: %s" % (f[6], red))
        mon.close("bending", u[2], R.mix(0, my, mz), 1e-9, 1e-12, "biaxial bending")
        h, b = R.h(f[6]), R.b
        q = max(h, b) / min(h, b)
        mon.close("torsion", u[3], abs(f[5]) / (saint_venant(q)[1] * max(h, b) * min(h, b) ** 2) / (min(1.3, 1 + 0.05 * q) * R.fv), 0.016, 1e-12, "torsion")
        if a >= 0:
            mon.close("bending and tension", u[4], R.mix(a / R.ft, my, mz), 1e-9, 1e-12, "bending and tension")
        if a <= 0:
            mon.close("bending and compression", u[5], R.mix((a / R.fc) ** 2, my, mz), 1e-9, 1e-12, "bending and compression")
    red = r.random() < 0.5
    e = m.check_sections(reduce_uv=red)
    want = np.max([m.section_resistance(i, reduce_uv=red) for i in range(n)], axis=0)
    mon.close("design", list(e), list(np.maximum(want, 0)), 1e-12, 1e-12, "largest utilization ratios of all sections")


def lef_ok(s, R):
    """effective lengths of the load on the tension edge are positive"""
    return all(R.lef(a, b, s.forces[i][6]) > 0.05 * (b - a) * s.L for a, b in R.segs(1) for i in R.inside(a, b))


def q_stability(r, s, m, mon, R):
    for ax in (0, 1):
        mon.close("segments", list(m.L_c[ax]), [(b - a) * s.L for a, b in R.segs(ax)], 1e-9, 1e-6, "lengths between lateral supports")
    ln, la, lr, kc = m.Ln(), m.lamda(), m.lamda_rel(), m.k_c()
    if r.random() < 0.5:
        ln, kc = m.Ln(), m.k_c()
    sl = [R.slender(ax) for ax in (0, 1)]
    flat = True
    for ax in (0, 1):
        mon.close("buckling length", list(ln[ax]), [be * (b - a) * s.L for (a, b), be in zip(R.segs(ax), R.beta(ax))], 1e-9, 1e-6, "buckling lengths about axis %d: %s" % (ax, s.mtype))
        # two sections of a tapered beam with the same bending stress: either is the decisive one
        sg = [sorted((abs(R.sig(j)[1]) for j in R.inside(a, b)), reverse=True) for a, b in R.segs(ax)]
        if s.kind != "prism" and any(len(q) > 1 and q[0] - q[1] < 1e-9 * max(1e-9, q[0]) for q in sg):
            flat = False
            continue
        mon.close("slenderness", list(la[ax]) + list(lr[ax]), [q[0] for q in sl[ax]] + [q[1] for q in sl[ax]], 1e-8, 1e-9, "slenderness")
        for g, w, q in zip(kc[ax], R.kc(ax), sl[ax]):
            if q[1] > 0.3:
                mon.close("buckling factor", g, w, 1e-8, 0, "k_c at relative slenderness %g" % q[1])
    if flat and all(q[1] > 0.3 for ax in (0, 1) for q in sl[ax]):
        mon.close("buckling", list(m.check_buckling()), R.buckling(), 1e-8, 1e-12, "buckling about both axes")
    if not lef_ok(s, R):
        return
    ref, nm = [], max(abs(q[0]) for q in s.forces)
    kcz = R.kc(1)
    its = {}
    for i, q in enumerate(s.forces):
        x = q[6]
        h, b = R.h(x), R.b
        its[i] = m.I_tor(x)
        mon.close("torsion constant", its[i], saint_venant(max(h, b) / min(h, b))[0] * max(h, b) * min(h, b) ** 3, 0.016, 0, "torsion constant")
    for k, (a, b) in enumerate(R.segs(1)):
        for i in R.inside(a, b):
            x = s.forces[i][6]
            if r.random() < 0.3:
                mon.close("critical bending stress", [m.l_ef(k, 1, x), m.sigma_mcrit(k, 1, x), m.k_crit(k, 1, x)], [R.lef(a, b, x), R.sigcrit(a, b, x, its[i]), R.kcrit(a, b, x, its[i])], 1e-8, 1e-9, "effective length, critical stress and k_crit")
            u = abs(R.sig(i)[1]) / (R.kcrit(a, b, x, its[i]) * R.fm)
            if nm > 0.1:
                u = u ** 2 + abs(R.sig(i)[0]) / (kcz[k] * R.fc)
            ref.append((u, x))
    # combinations with tension are on the safe side or left out; slender parts only
    if (s.mode in ("compression", "none")) and all(q[0] <= 0 for q in s.forces) and not 0 < nm <= 0.2 and flat and (nm == 0 or all(q[1] > 0.3 for q in sl[1])):
        full = m.check_LT_buckling(get_full=True)
        mon.close("lateral buckling", [m.check_LT_buckling(), full["r"]], [max(ref)[0]] * 2, 1e-8, 1e-12, "lateral torsional buckling")
        if max(ref)[0] > 1e-9:
            mon.ok("lateral buckling", any(abs(u - max(ref)[0]) <= 1e-8 * u and x == full["loc"] for u, x in ref), "place of the largest utilization")


def q_design(r, s, m, mon, R):
    if not lef_ok(s, R):
        return
    u = max(m.check_sections())
    bk, lt = list(m.check_buckling()), m.check_LT_buckling()
    want = max([u] + bk + ([lt] if s.mtype in ("beam", "rigid-beam") else []))
    mon.close("design", m.design(), want, 1e-12, 0, "largest utilization of the member")
    m.check_cross_section()
    mon.ok("design", m.is_strong_enough == (max([u] + bk + [lt]) <= 1.0), "verdict on the strength of the member")


def q_bracing(r, s, m, mon, R):
    if not lef_ok(s, R):
        return
    n = r.choice([None, r.randint(1, 12)])
    ks = r.choice([None, r.uniform(1, 4)])
    g = m.bracing(n=n, ks=ks)
    k = len(s.lat[1]) + 1
    nd = max((1 - R.kcrit(a, b, s.forces[i][6], m.I_tor(s.forces[i][6]))) * abs(s.forces[i][1]) / R.h(s.forces[i][6]) for a, b in R.segs(1) for i in R.inside(a, b))
    kk = ks if ks is not None else 2 * (1 + math.cos(math.pi / k))
    want = [kk * nd / (s.L / k), nd / (50 if R.f == "S" else 80)]
    if n is not None:
        want.append(min(1, math.sqrt(15e3 / s.L)) * n * nd / (50 * s.L))
    mon.close("bracing", list(g), want, 1e-8, 1e-9, "stiffness, force and load of the bracing")


def q_apex(r, s, m, mon, R):
    if s.kind not in ("ridge", "curved", "cambered") or s.R:
        return
    hap = R.h(0.5)
    al = math.atan((s.Hap - s.H) / (s.L / 2)) if s.kind == "ridge" else math.radians(s.alpha)
    ta = math.tan(al)
    k1 = 1 + 1.4 * ta + 5.4 * ta ** 2
    if s.kind == "ridge":
        kl, kp, kr, kd = k1, 0.2 * ta, 1.0, 1.4
    else:
        q = hap / (s.r + 0.5 * hap)
        rt = s.r / s.t
        kr = 1.0 if rt >= 240 else 0.76 + 0.001 * rt
        if s.kind == "curved":
            kl, kp, kd = 1 + 0.35 * q + 0.6 * q * q, 0.25 * q, 1.4
        else:
            kl = k1 + (0.35 - 8 * ta) * q + (0.6 + 8.3 * ta - 7.8 * ta ** 2) * q * q + 6 * ta ** 2 * q ** 3
            kp = 0.2 * ta + (0.25 - 1.5 * ta + 2.6 * ta ** 2) * q + (2.1 * ta - 4 * ta ** 2) * q * q
            kd = 1.7
    mon.close("apex factors", [m.k_l(), m.k_p(), m.k_r(), m.k_dis()], [kl, kp, kr, kd], 1e-9, 1e-12, "factors of the apex zone of a %s beam" % s.kind)
    vt = s.B * (s.L * (s.H + s.Hap) / 2 if s.kind == "ridge" else face(s))
    v = m.V()
    if s.kind == "ridge":
        mon.close("apex volume", v, s.B * hap ** 2, 1e-9, 0, "volume of the apex zone")
    elif s.kind == "curved":
        if s.alpha == s.beta:
            # between two parallel arcs of radius r and r + h
            mon.close("apex volume", v, s.B * (2 * math.radians(s.beta)) * hap * (s.r + hap / 2), 0.02, 0, "volume of the curved part")
    else:
        mon.ok("apex volume", 0 < v < vt * (1 + 1e-9), "volume of the apex zone %g of %g" % (v, vt))
    if not math.isfinite(v) or v <= 0:
        return
    mon.close("apex volume", m.V_tot(), vt, 1e-6, 1.0, "volume of the beam")
    kv = s.kvol if s.kvol is not None else 1.0 if R.f == "S" else (1e7 / min(v, 2 / 3 * vt)) ** 0.2
    mon.close("apex factors", m.k_vol(), kv, 1e-8, 0, "volume factor")
    locs = [q[6] for q in s.forces]
    lo, hi = max(i for i, x in enumerate(locs) if x <= 0.5), min(i for i, x in enumerate(locs) if x >= 0.5)
    ms = sorted((s.forces[lo][1], s.forces[hi][1]))
    M = m.M_apd()
    if lo == hi:
        mon.close("apex moment", M, ms[0], 1e-12, 0, "moment at the apex")
    else:
        mon.ok("apex moment", ms[0] - 1e-6 * abs(ms[0]) <= M <= ms[1] + 1e-6 * abs(ms[1]), "moment at the apex %g between %r" % (M, ms))
    if M < 0:
        return
    W = R.W(0.5)[0]
    mon.close("apex checks", m.check_apex_bending_stress(), kl * M / W / (kr * R.fm), 1e-8, 1e-12, "bending at the apex")
    pt = kp * M / W / (kd * kv * R.ft90)
    mon.close("apex checks", [m.sigma_t90d(), m.check_apex_perpendicular_tension(), m.check_perpendicular_to_grain_tension()], [kp * M / W, pt, pt], 1e-8, 1e-12, "tension perpendicular to grain at the apex")
    if lo == hi:
        mon.close("apex checks", m.check_tapered_beam_bending_tension(), kl * M / W / (kr * R.fm), 1e-8, 1e-12, "bending at the apex from the stresses")
    if not (R.f == "L" and s.sc == 1) and s.mtype in ("beam", "rigid-beam"):
        f0, f1 = s.forces[R.reduced(0)], s.forces[R.reduced(len(s.forces) - 1)]
        kcr = 0.67 if R.f in "SG" and not s.varn else 1.0
        t = max(1.5 * abs(f[4]) / (R.A(f[6]) * kcr) for f in (f0, f1))
        mon.close("apex checks", m.check_apex_shear_perpendicular_tension_combined(), t / R.fv + pt, 1e-8, 1e-12, "shear and tension perpendicular to grain")


def q_taper(r, s, m, mon, R):
    if s.kind != "mono":
        return
    ta = (s.Hap - s.H) / s.L
    tens = 1 / math.sqrt(1 + (ta * R.fm / (0.75 * R.fv)) ** 2 + (ta ** 2 * R.fm / R.ft90) ** 2)
    comp = 1 / math.sqrt(1 + (ta * R.fm / (1.5 * R.fv)) ** 2 + (ta ** 2 * R.fm / R.fc90) ** 2)
    sg = max((R.sig(i)[1] for i in range(len(s.forces))), key=abs)
    if sg == 0:
        return
    k = m.k_m_alpha()
    # a beam turned upside down has its tapered edge on the side of the other sign
    m.section.flipped = not s.flip
    k2 = m.k_m_alpha()
    m.section.flipped = s.flip
    mon.close("tapered edge", sorted((k, k2)), sorted((tens, comp)), 1e-9, 0, "reduction at the tapered edge in tension and compression")
    m.myed[:] = [-x for x in m.myed]
    k3 = m.k_m_alpha()
    m.myed[:] = [-x for x in m.myed]
    mon.close("tapered edge", k3, k2, 1e-12, 0, "turning the beam upside down and changing the sign of moments")
    mon.close("tapered edge", m.sigma_m_alpha_d(), sg, 1e-9, 0, "largest bending stress with its sign")
    mon.close("tapered edge", m.check_single_tapered_beam_bending_tension(), abs(sg) / (k * R.fm), 1e-9, 0, "bending at the tapered edge")


def q_symmetry(r, s, m, mon, R):
    """signs of bending moments, shear forces and torque do not matter in rectangular sections"""
    if not lef_ok(s, R):
        return
    a = [list(m.check_sections()), list(m.check_buckling()), m.check_LT_buckling()]
    j = r.choice([1, 2, 3, 4, 5])
    l = [m.ned, m.myed, m.mzed, m.vyed, m.vzed, m.ted][j]
    l[:] = [-x for x in l]
    b = [list(m.check_sections()), list(m.check_buckling()), m.check_LT_buckling()]
    l[:] = [-x for x in l]
    mon.close("symmetry", a[0] + a[1] + [a[2]], b[0] + b[1] + [b[2]], 1e-10, 1e-12, "sign of internal force %d" % j)


ASKS = {k: globals()["q_" + k] for k in ASK}


def query(r, s, m, mon, full):
    if R_bad(s):
        return
    R = Ref(s)
    qs = list(ASKS)
    r.shuffle(qs)
    for q in qs if full else qs[:2]:
        ASKS[q](r, s, m, mon, R)


def R_bad(s):
    bn = w01.rates(s.mat)[1]
    c = w01.char(None, bn, s.R)
    return s.B - 2 * c < 10 or s.H - c < 20


def w_member(r, mon, kind=None):
    ms = [mkmember(r, kind) for _ in range(r.choice([1, 1, 2]))]
    mon.case([dict(kind=s.kind, mat=s.mat.name, B=s.B, H=s.H, L=s.L, type=s.mtype, lat=s.lat, forces=s.forces) for s, _ in ms])
    last = ""
    for _ in range(r.randint(0, 5)):
        s, m = r.choice(ms)
        c = change(r, s, m)
        if c:
            last = c
            mon.note(c)
        if r.random() < 0.5:
            query(r, s, m, mon, False)
    for s, m in ms:
        query(r, s, m, mon, True)
        mon.ok("independence", sorted(m.lateral_support_y) == s.lat[0] and sorted(m.lateral_support_z) == s.lat[1] and m.loc == [q[6] for q in s.forces] and m.beta == s.bf, "data of the member changed by itself")
        sg = (any(q[0] < 0 for q in s.forces), any(q[0] > 0 for q in s.forces))
        mon.nontrivial((s.kind, fam(s.mat), s.mtype, sg, len(s.lat[0]), len(s.lat[1]), last))


def w_apex(r, mon):
    w_member(r, mon, r.choice(["ridge", "curved", "cambered", "mono"]))


WORKLOADS = {"member": (w_member, 2500, 30000), "apex": (w_apex, 1200, 12000)}
ASSUMPTIONS = ["Strength and stiffness values are those of the data tables of the code.", "Effective length factor 0.9 of uniformly loaded beams is used for lateral buckling, the buckling factors of columns and beams are those of the handbook cited in the code.",
               "Size factor in bending by the depth at the start of the beam.", "Torsion factors interpolated from a table: compared within 1.6 % with the exact series."]

if __name__ == "__main__":
    vm.main(globals())
