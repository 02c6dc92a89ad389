"""EN 1993-1-8 Tables 7.11 and 7.12 (welded hollow section joints), written from the standard."""
import math

E = 210e3


def reduction(fy, r=0):
    if r:
        return r
    return 1.0 if fy <= 355 else (0.9 if fy <= 460 else 0.8)


def kn(N0, M0, A, W, fy, beta):
    n = (-N0 / A + M0 / W) / fy          # > 0: compression in the connecting face
    return min(1.0, 1.3 - 0.4 * n / beta) if n > 0 else 1.0


def k_joint(c, br, ang, gap, N0, M0, V, r=0):
    """c, br[i]: dict(h,b,t,fy,A,W); -> dict of mode -> [N1Rd, N2Rd], chord {(Av used in VplRd): N0Rd}"""
    h0, b0, t0, f0 = c["h"], c["b"], c["t"], c["fy"]
    beta = sum(x["b"] + x["h"] for x in br) / (4 * b0)
    g = b0 / (2 * t0)
    k = kn(N0, M0, c["A"], c["W"], f0, beta)
    R = reduction(f0, r)
    al = math.sqrt(1 / (1 + 4 * gap ** 2 / (3 * t0 ** 2)))
    Av = (2 * h0 + al * b0) * t0
    out = dict(face=[], shear=[], brace=[], punch=[])
    for x, a in zip(br, ang):
        s = math.sin(math.radians(a))
        out["face"].append(R * 8.9 * k * f0 * t0 ** 2 * math.sqrt(g) / s * beta)
        out["shear"].append(R * f0 * Av / (math.sqrt(3) * s))
        beff = min(10 / (b0 / t0) * f0 * t0 / (x["fy"] * x["t"]) * x["b"], x["b"])
        out["brace"].append(R * x["fy"] * x["t"] * (2 * x["h"] - 4 * x["t"] + x["b"] + beff))
        bep = min(10 / (b0 / t0) * x["b"], x["b"])
        out["punch"].append(R * f0 * t0 / (math.sqrt(3) * s) * (2 * x["h"] / s + x["b"] + bep))
    use = ["face", "shear", "brace"] + (["punch"] if beta <= 1 - 1 / g else [])
    out["min"] = [min(out[m][i] for m in use) for i in (0, 1)]
    ch = []
    for Vpl in (f0 / math.sqrt(3) * c["A"] * h0 / (b0 + h0), f0 / math.sqrt(3) * Av):
        ch.append(0.0 if V > Vpl else R * f0 * ((c["A"] - Av) + Av * math.sqrt(1 - (V / Vpl) ** 2)))
    out["chord"] = ch
    out["beta"], out["kn"], out["Av"], out["edge"] = beta, k, Av, abs(beta - (1 - 1 / g))
    return out


def chi(slend, alpha=0.49):
    if slend <= 0.2:
        return 1.0
    p = 0.5 * (1 + alpha * (slend - 0.2) + slend ** 2)
    return min(1.0, 1 / (p + math.sqrt(p * p - slend * slend)))


def y_face(c, x, ang, beta, k, R):
    s = math.sin(math.radians(ang))
    eta = x["h"] / c["b"]
    return R * k * c["fy"] * c["t"] ** 2 / ((1 - beta) * s) * (2 * eta / s + 4 * math.sqrt(1 - beta))


def y_joint(c, x, ang, N1, N0, M0, kind="Y", r=0):
    """-> dict; 'wall' and 'design' are (low, high) brackets where the standard leaves room"""
    h0, b0, t0, f0 = c["h"], c["b"], c["t"], c["fy"]
    beta = x["b"] / b0
    g = b0 / (2 * t0)
    s = math.sin(math.radians(ang))
    R = reduction(f0, r)
    k = kn(N0, M0, c["A"], c["W"], f0, beta)
    fb = f0
    if N1 < 0:
        sl = 3.46 * (h0 / t0 - 2) * math.sqrt(1 / s) / (math.pi * math.sqrt(E / f0))
        fb = chi(sl) * f0 * (1 if kind == "Y" else 0.8 * s)
    wall = R * k * fb * t0 / s * (2 * x["h"] / s + 10 * t0)
    lo = hi = wall
    if kind == "X" and math.cos(math.radians(ang)) > x["h"] / h0:
        for Av in (c["A"] * h0 / (b0 + h0), 2 * h0 * t0, c["A"] * h0 / (b0 + h0) * 1.000001):
            v = min(wall, R * f0 * Av / math.sqrt(3) / s)
            lo, hi = min(lo, v), (v if hi is wall else max(hi, v))
    beff = min(10 / (b0 / t0) * f0 * t0 / (x["fy"] * x["t"]) * x["b"], x["b"])
    brace = R * x["fy"] * x["t"] * (2 * x["h"] - 4 * x["t"] + 2 * beff)
    bep = min(10 / (b0 / t0) * x["b"], x["b"])
    punch = R * f0 * t0 / (math.sqrt(3) * s) * (2 * x["h"] / s + 2 * bep)
    face = y_face(c, x, ang, beta if beta < 1 else 0.99, k, R)
    out = dict(face=face, wall=(lo, hi), brace=brace, punch=punch, fb=fb, beta=beta, kn=k, edge=min(abs(beta - (1 - 1 / g)), abs(beta - .85)))
    if beta < 0.85:
        out["min"] = (face, face)
    else:
        D = []
        for kk in (k, kn(N0, M0, c["A"], c["W"], f0, 0.85)):
            f85 = y_face(c, x, ang, 0.85, kk, R)
            for w in (lo, hi):
                v = min(f85 + (beta - 0.85) / 0.15 * (w - f85), brace)
                if beta <= 1 - 1 / g:
                    v = min(v, punch)
                D.append(v)
        out["min"] = (min(D), max(D))
    return out
