"""Reference evaluation of EN 1993-1-1 rules, written from the standard."""
import math

G0 = 1.0
G1 = 1.0
CURVES = dict(a0=0.13, a=0.21, b=0.34, c=0.49, d=0.76)


def eps(fy):
    return (235.0 / fy) ** 0.5


def cls(ratio, l1, l2, l3):
    return 1 if ratio <= l1 else 2 if ratio <= l2 else 3 if ratio <= l3 else 4


def internal_comp(ct, e):
    return cls(ct, 33 * e, 38 * e, 42 * e)


def internal_bend(ct, e):
    return cls(ct, 72 * e, 83 * e, 124 * e)


def outstand_comp(ct, e):
    return cls(ct, 9 * e, 10 * e, 14 * e)


def tube(dt, e):
    return cls(dt, 50 * e * e, 70 * e * e, 90 * e * e)


def internal_limits(e, a, psi):
    if a <= 0:
        l1 = l2 = math.inf
    elif a > 0.5:
        l1, l2 = 396 * e / (13 * a - 1), 456 * e / (13 * a - 1)
    else:
        l1, l2 = 36 * e / a, 41.5 * e / a
    l3 = 42 * e / (0.67 + 0.33 * psi) if psi > -1 else 62 * e * (1 - psi) * math.sqrt(-psi)
    return l1, l2, l3


def internal_mn(ct, e, a, psi):
    l1, l2, l3 = internal_limits(e, a, psi)
    if ct <= l1:
        return 1
    if ct <= l2:
        return 2
    return 3 if ct <= l3 else 4


def chi(lam, alpha):
    phi = 0.5 * (1 + alpha * (lam - 0.2) + lam * lam)
    return min(1.0, 1 / (phi + math.sqrt(phi * phi - lam * lam)))


def cm(Mend, Ms=None, load="uniform"):
    """Table B.3"""
    M1, M2 = Mend
    Mh = M1 if abs(M1) > abs(M2) else M2
    small = M2 if abs(M1) > abs(M2) else M1
    psi = small / Mh if abs(Mh) > 0 else 0.0
    if Ms is None or abs(Ms - 0.5 * (M1 + M2)) < 1e-6:
        return max(0.6 + 0.4 * psi, 0.4)
    if abs(Mh) < 1e-6:
        return 0.95 if load == "uniform" else 0.90
    if abs(Ms) <= abs(Mh):
        als = Ms / Mh
        if als >= 0:
            return max(0.2 + 0.8 * als, 0.4)
        if psi >= 0:
            return max(0.1 - 0.8 * als, 0.4) if load == "uniform" else max(-0.8 * als, 0.4)
        return max(0.1 * (1 - psi) - 0.8 * als, 0.4) if load == "uniform" else max(-0.2 * psi - 0.8 * als, 0.4)
    alh = Mh / Ms
    if alh >= 0 or psi >= 0:
        return 0.95 + 0.05 * alh if load == "uniform" else 0.90 + 0.10 * alh
    return 0.95 + 0.05 * alh * (1 + 2 * psi) if load == "uniform" else 0.90 + 0.10 * alh * (1 + 2 * psi)


def kyy(n, lam, Cm, c):
    return Cm * (1 + min(lam - 0.2, 0.8) * n) if c < 3 else Cm * (1 + 0.6 * min(lam, 1.0) * n)


def kzz(n, lam, Cm, c, hollow):
    if c < 3:
        return Cm * (1 + min(lam - 0.2, 0.8) * n) if hollow else Cm * (1 + min(2 * lam - 0.6, 1.4) * n)
    return Cm * (1 + 0.6 * min(lam, 1.0) * n)


def kzy_tors(n, lamz, CmLT, c):
    if c < 3:
        k = 1 - 0.1 * min(lamz, 1.0) / (CmLT - 0.25) * n
        if lamz < 0.4:
            return min(0.6 + lamz, 1 - 0.1 * lamz / (CmLT - 0.25) * n)
        return k
    return 1 - 0.05 * min(lamz, 1.0) / (CmLT - 0.25) * n
