"""Elastic lateral-torsional buckling moment by the Ritz method (doubly symmetric beams)."""
import math
import numpy as np
from numpy.polynomial.legendre import leggauss
import scipy.linalg as sl


def mcr_ritz(EIz, GIt, EIw, L, kind, za=0.0, cantilever=False, warping_free=True, psi=1.0, n=10):
    """largest moment at buckling.  kind: 'uniform', 'point' or 'ends' (simply supported: end moments 1 and psi)"""
    x, w = leggauss(40)
    x, w = (x + 1) / 2, w / 2
    # functions of xi in [0,1]
    if cantilever:
        i0 = 1 if warping_free else 2
        P = np.array([x ** i for i in range(i0, i0 + n)])
        D = np.array([i * x ** (i - 1) for i in range(i0, i0 + n)]) / L
        D2 = np.array([i * (i - 1) * x ** max(i - 2, 0) for i in range(i0, i0 + n)]) / L ** 2
        at = np.ones(n)
        M = (1 - x) if kind == "point" else (1 - x) ** 2
        q = 2 / L ** 2                       # uniform load with qL^2/2 = 1
        Ppt = 1 / L
    else:
        k = np.arange(1, n + 1)[:, None]
        P, D, D2 = np.sin(k * math.pi * x), k * math.pi / L * np.cos(k * math.pi * x), -(k * math.pi / L) ** 2 * np.sin(k * math.pi * x)
        at = np.sin(np.arange(1, n + 1) * math.pi / 2)
        M = {"uniform": 4 * x * (1 - x), "point": np.minimum(2 * x, 2 - 2 * x), "ends": 1 + (psi - 1) * x}[kind]
        q, Ppt = 8 / L ** 2, 4 / L
    W = w * L
    K0 = GIt * (D * W) @ D.T + EIw * (D2 * W) @ D2.T
    K2 = (P * (W * M * M)) @ P.T / EIz
    if kind == "point":
        K1 = -Ppt * za * np.outer(at, at)
    elif kind == "uniform":
        K1 = -q * za * (P * W) @ P.T
    else:
        K1 = np.zeros_like(K0)
    # K0 + l K1 - l^2 K2 singular; scale
    s = 1 / np.sqrt(np.diag(K0))
    K0, K1, K2 = [s[:, None] * m * s for m in (K0, K1, K2)]
    l0 = 1 / math.sqrt(max(np.linalg.eigvals(np.linalg.solve(K0, K2)).real))
    K1, K2 = K1 * l0, K2 * l0 * l0
    # l = 1/mu: mu^2 K0 + mu K1 - K2 = 0
    A = np.block([[np.zeros((n, n)), np.eye(n)], [np.linalg.solve(K0, K2), -np.linalg.solve(K0, K1)]])
    mu = np.linalg.eigvals(A)
    mu = mu[abs(mu.imag) < 1e-6 * abs(mu).max()].real
    return l0 / max(mu)
