"""Independent numerical section properties: every solid is described by its
horizontal chords; integrals are taken by Gauss quadrature between the
breakpoints of the outline."""
import math
import numpy as np

_GX, _GW = np.polynomial.legendre.leggauss(24)


class Shape:
    """bps: sorted z breakpoints; chords(z): list of (x0, x1) solid intervals,
    symmetric about x = 0; perim: outline length in contact with air outside."""

    def __init__(self, bps, chords):
        self.bps = sorted(set(bps))
        self.chords = chords

    def _int(self, f, lo=None, hi=None):
        tot = 0.0
        pts = [b for b in self.bps]
        if lo is not None:
            pts = [lo] + [b for b in pts if b > lo]
        if hi is not None:
            pts = [b for b in pts if b < hi] + [hi]
        for a, b in zip(pts[:-1], pts[1:]):
            if b - a < 1e-12:
                continue
            # smooth square-root end behaviour of arcs: z = mid + half*sin(pi/2*s)
            m, h = 0.5 * (a + b), 0.5 * (b - a)
            s = _GX * math.pi / 2
            z = m + h * np.sin(s)
            w = _GW * math.pi / 2 * h * np.cos(s)
            tot += sum(wi * f(zi) for wi, zi in zip(w, z))
        return tot

    def props(self):
        wid = lambda z: sum(b - a for a, b in self.chords(z))
        A = self._int(wid)
        S = self._int(lambda z: z * wid(z))
        zc = S / A
        Iy = self._int(lambda z: (z - zc) ** 2 * wid(z))
        Iz = self._int(lambda z: sum((b ** 3 - a ** 3) / 3 for a, b in self.chords(z)))
        Wplz = self._int(lambda z: sum(_absx(a, b) for a, b in self.chords(z)))
        lo, hi = self.bps[0], self.bps[-1]
        for _ in range(80):
            m = 0.5 * (lo + hi)
            if self._int(wid, hi=m) < A / 2:
                lo = m
            else:
                hi = m
        zp = 0.5 * (lo + hi)
        top = self._int(lambda z: (z - zp) * wid(z), lo=zp)
        bot = self._int(lambda z: (zp - z) * wid(z), hi=zp)
        xmax = max(max(abs(a), abs(b)) for z in np.linspace(self.bps[0] + 1e-9, self.bps[-1] - 1e-9, 401)
                   for a, b in self.chords(z))
        zext = max(zc - self.bps[0], self.bps[-1] - zc)
        return dict(A=A, zc=zc, zp=zp, Iy=Iy, Iz=Iz, Wely=Iy / zext, Welz=Iz / xmax,
                    Wply=top + bot, Wplz=Wplz)


def _absx(a, b):
    F = lambda x: 0.5 * x * abs(x)
    return F(b) - F(a)


def rolled_i(h, b, tf, tw, r):
    def chords(z):
        za = abs(z)
        if za > h / 2 - tf:
            return [(-b / 2, b / 2)]
        d = h / 2 - tf - za            # distance below the flange face
        x = tw / 2
        if d < r:
            x += r - math.sqrt(max(r * r - (r - d) ** 2, 0.0))
        return [(-x, x)]
    H = h / 2
    per = 2 * b + 4 * tf + 4 * ((b - tw) / 2 - r) + 4 * math.pi * r / 2 + 2 * (h - 2 * tf - 2 * r)
    return Shape([-H, -H + tf, -H + tf + r, 0, H - tf - r, H - tf, H], chords), per


def rect_tube(h, b, t, R):
    ri = R - t

    def half(z, hh, bb, rr):
        za = abs(z)
        if za > hh / 2:
            return None
        if za <= hh / 2 - rr:
            return bb / 2
        return bb / 2 - rr + math.sqrt(max(rr * rr - (za - (hh / 2 - rr)) ** 2, 0.0))

    def chords(z):
        xo = half(z, h, b, R)
        xi = half(z, h - 2 * t, b - 2 * t, ri)
        if xi is None:
            return [(-xo, xo)]
        return [(-xo, -xi), (xi, xo)]
    H = h / 2
    per = 2 * (h - 2 * R) + 2 * (b - 2 * R) + 2 * math.pi * R
    return Shape([-H, -H + t, -H + R, 0, H - R, H - t, H], chords), per


def round_tube(d, t):
    ro, ri = d / 2, d / 2 - t

    def chords(z):
        xo = math.sqrt(max(ro * ro - z * z, 0.0))
        if abs(z) >= ri:
            return [(-xo, xo)]
        xi = math.sqrt(max(ri * ri - z * z, 0.0))
        return [(-xo, -xi), (xi, xo)]
    return Shape([-ro, -ri, 0, ri, ro], chords), math.pi * d


def welded_i(h, tw, bt, tt, bb, tb):
    def chords(z):
        if z > h - tt:
            return [(-bt / 2, bt / 2)]
        if z < tb:
            return [(-bb / 2, bb / 2)]
        return [(-tw / 2, tw / 2)]
    per = (bt + 2 * tt + (bt - tw)) + (bb + 2 * tb + (bb - tw)) + 2 * (h - tt - tb)
    return Shape([0, tb, h - tt, h], chords), per


def wq(h, tw, bt, tt, bb, tb):
    """two webs of height h on a bottom plate; the top plate sits between the webs, flush with their top"""
    H = h + tb

    def chords(z):
        if z < tb:
            return [(-bb / 2, bb / 2)]
        if z > H - tt:
            return [(-bt / 2 - tw, bt / 2 + tw)]
        return [(-bt / 2 - tw, -bt / 2), (bt / 2, bt / 2 + tw)]
    return Shape([0, tb, H - tt, H], chords), None


def torsion_constant(inside, xs, zs):
    """St Venant torsion constant by finite differences of the Prandtl stress
    function on a regular grid (solid, simply connected sections)."""
    import scipy.sparse as sp
    import scipy.sparse.linalg as spl
    hx = xs[1] - xs[0]
    hz = zs[1] - zs[0]
    mask = inside(xs[:, None], zs[None, :])
    idx = -np.ones(mask.shape, int)
    n = int(mask.sum())
    idx[mask] = np.arange(n)
    I, J = np.nonzero(mask)
    rows, cols, vals = [np.arange(n)], [np.arange(n)], [np.full(n, -2 / hx ** 2 - 2 / hz ** 2)]
    for di, dj, w in ((1, 0, 1 / hx ** 2), (-1, 0, 1 / hx ** 2), (0, 1, 1 / hz ** 2), (0, -1, 1 / hz ** 2)):
        k = idx[I + di, J + dj]
        m = k >= 0
        rows.append(np.arange(n)[m]); cols.append(k[m]); vals.append(np.full(m.sum(), w))
    K = sp.csr_matrix((np.concatenate(vals), (np.concatenate(rows), np.concatenate(cols))))
    phi = spl.spsolve(K.tocsc(), np.full(n, -2.0))
    return 2 * phi.sum() * hx * hz
