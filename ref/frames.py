"""Independent reference models for frame analysis (no metku code).

Plane frames: every member end that carries a hinge gets a rotation unknown of
its own (metku condenses the stiffness matrix instead); fixed-end forces come
from Gauss integration of the Hermite interpolation (metku uses closed forms).
"""
import numpy as np

_GX, _GW = np.polynomial.legendre.leggauss(6)


def herm(x, L):
    s = x / L
    return np.array([1 - 3*s**2 + 2*s**3, L*(s - 2*s**2 + s**3),
                     3*s**2 - 2*s**3, L*(s**3 - s**2)])


def k_beam(EA, EI, L):
    k = np.zeros((6, 6))
    # axial by energy
    B = np.array([-1/L, 0, 0, 1/L, 0, 0])
    k += EA*L*np.outer(B, B)
    for gx, gw in zip(_GX, _GW):
        s = 0.5*(gx + 1)
        c = np.array([(-6 + 12*s)/L**2, (-4 + 6*s)/L, (6 - 12*s)/L**2, (-2 + 6*s)/L])
        B = np.zeros(6)
        B[[1, 2, 4, 5]] = c
        k += EI*0.5*L*gw*np.outer(B, B)
    return k


def kg_beam(P, L):
    """consistent geometric stiffness, P tension positive"""
    k = np.zeros((6, 6))
    for gx, gw in zip(_GX, _GW):
        s = 0.5*(gx + 1)
        g = np.array([(-6*s + 6*s**2)/L, 1 - 4*s + 3*s**2, (6*s - 6*s**2)/L, -2*s + 3*s**2])
        B = np.zeros(6)
        B[[1, 2, 4, 5]] = g
        k += P*0.5*L*gw*np.outer(B, B)
    return k


def feq(q1, q2, L):
    """(axial, transverse) linearly varying line loads -> equivalent nodal loads.
    q1, q2: (qx, qy) local components at the ends"""
    f = np.zeros(6)
    for gx, gw in zip(_GX, _GW):
        s = 0.5*(gx + 1)
        qx = q1[0] + (q2[0]-q1[0])*s
        qy = q1[1] + (q2[1]-q1[1])*s
        H = herm(s*L, L)
        f[[1, 2, 4, 5]] += 0.5*L*gw*qy*H
        f[0] += 0.5*L*gw*qx*(1-s)
        f[3] += 0.5*L*gw*qx*s
    return f


class Frame2D:
    """spec: dict(nodes=[(x,y)], elems=[dict(n=(i,j),E,A,I,rel=set(),kind)],
    supports=[(node,[dofs])], loads=[...])"""

    def __init__(self, nodes, elems, supports):
        self.nodes = np.asarray(nodes, float)
        self.elems = elems
        n = len(nodes)
        used = np.zeros((n, 3), bool)
        for e in elems:
            i, j = e["n"]
            used[[i, j], 0:2] = True
        nd = 0
        self.dof = -np.ones((n, 3), int)
        rot = np.zeros(n, bool)
        for e in elems:
            if e.get("kind", "beam") == "beam":
                for a, end in ((0, 2), (1, 5)):
                    rot[e["n"][a]] = True
        for i in range(n):
            for d in range(3):
                if (d < 2 and used[i, d]) or (d == 2 and rot[i]):
                    self.dof[i, d] = nd
                    nd += 1
        self.edof = []
        for e in elems:
            i, j = e["n"]
            if e.get("kind", "beam") == "beam":
                ed = [self.dof[i, 0], self.dof[i, 1], self.dof[i, 2],
                      self.dof[j, 0], self.dof[j, 1], self.dof[j, 2]]
                for r in (2, 5):
                    if r in e.get("rel", ()) or r in e.get("spr", {}):
                        ed[r] = nd
                        nd += 1
            else:
                ed = [self.dof[i, 0], self.dof[i, 1], self.dof[j, 0], self.dof[j, 1]]
            self.edof.append(np.array(ed))
        self.nd = nd
        fixed = set()
        for nid, dofs in supports:
            for d in dofs:
                if self.dof[nid, d] >= 0:
                    fixed.add(int(self.dof[nid, d]))
        self.fixed = sorted(fixed)
        self.free = np.array([d for d in range(nd) if d not in fixed], int)

    def geo(self, e):
        i, j = e["n"]
        d = self.nodes[j] - self.nodes[i]
        L = float(np.hypot(*d))
        c, s = d/L
        return L, c, s

    def T(self, e):
        L, c, s = self.geo(e)
        t = np.array([[c, s, 0], [-s, c, 0], [0, 0, 1.0]])
        T = np.zeros((6, 6))
        T[:3, :3] = t
        T[3:, 3:] = t
        return T

    def klocal(self, e):
        L, c, s = self.geo(e)
        return k_beam(e["E"]*e["A"], e["E"]*e["I"], L)

    def K(self, kfun=None):
        K = np.zeros((self.nd, self.nd))
        for ie, (e, ed) in enumerate(zip(self.elems, self.edof)):
            kind = e.get("kind", "beam")
            L, c, s = self.geo(e)
            if kind == "beam":
                T = self.T(e)
                k0 = self.klocal(e) if kfun is None else kfun(ie, e)
                k = T.T @ k0 @ T
            else:
                ks = e["k"] if kind == "spring" else e["E"]*e["A"]/L
                b = np.array([-c, -s, c, s])
                k = ks*np.outer(b, b)
            K[np.ix_(ed, ed)] += k
            for r, ks in e.get("spr", {}).items():
                # rotational spring between the node and the end of the beam
                d = [self.dof[e["n"][r//3], 2], ed[r]]
                K[np.ix_(d, d)] += ks*np.array([[1, -1], [-1, 1]])
        return K

    def eload(self, e, loads):
        """local equivalent nodal load vector of all the line loads on element e"""
        L, c, s = self.geo(e)
        f = np.zeros(6)
        for ld in loads:
            q1, q2 = ld["f"]*ld["q"][0], ld["f"]*ld["q"][1]
            if ld["coords"] == "local":
                v = np.array([1, 0]) if ld["dir"] == "x" else np.array([0, 1.0])
            else:
                v = np.array([c, -s]) if ld["dir"] == "x" else np.array([s, c])
            f += feq(q1*v, q2*v, L)
        return f

    def solve(self, ploads, lloads, kfun=None, efun=None):
        """ploads: [(node,[Fx,Fy,M])], lloads: {elem index: [load dict]}.
        returns nodal displacements (n x 3), end forces R per element (local)"""
        K = self.K(kfun)
        p = np.zeros(self.nd)
        for nid, v in ploads:
            for d in range(3):
                if self.dof[nid, d] >= 0:
                    p[self.dof[nid, d]] += v[d]
        fl = {}
        for ie, lds in lloads.items():
            e = self.elems[ie]
            f = self.eload(e, lds) if efun is None else efun(ie, e, lds)
            fl[ie] = f
            p[self.edof[ie]] += self.T(e).T @ f
        fr = self.free
        Kf = K[np.ix_(fr, fr)]
        sc = 1/np.sqrt(np.maximum(np.abs(np.diag(Kf)), 1e-300))
        Ks = Kf*np.outer(sc, sc)
        self.cond = np.linalg.cond(Ks) if len(fr) else 1.0
        u = np.zeros(self.nd)
        if len(fr):
            u[fr] = sc*np.linalg.solve(Ks, sc*p[fr])
        self.uvec = u
        self.react = K @ u - p
        U = np.zeros((len(self.nodes), 3))
        for i in range(len(self.nodes)):
            for d in range(3):
                if self.dof[i, d] >= 0:
                    U[i, d] = u[self.dof[i, d]]
        R = []
        for ie, (e, ed) in enumerate(zip(self.elems, self.edof)):
            L, c, s = self.geo(e)
            if e.get("kind", "beam") == "beam":
                k0 = self.klocal(e) if kfun is None else kfun(ie, e)
                r = k0 @ (self.T(e) @ u[ed]) - fl.get(ie, 0)
                R.append(r)
            else:
                ks = e["k"] if e["kind"] == "spring" else e["E"]*e["A"]/L
                N = ks*(np.array([-c, -s, c, s]) @ u[ed])
                R.append(np.array([-N, 0, 0, N, 0, 0]))
        return U, R

    def buckling(self, N, k):
        """critical load factors for the axial forces N (tension positive)"""
        K = self.K()
        KG = self.K(lambda ie, e: kg_beam(N[ie], self.geo(e)[0]))
        fr = self.free
        K = K[np.ix_(fr, fr)]
        KG = KG[np.ix_(fr, fr)]
        import scipy.linalg as sl
        # K v = -lam KG v  ->  -KG v = mu K v, mu = 1/lam
        mu = sl.eigh(-KG, K, eigvals_only=True)
        return np.sort(1/mu[mu > 1e-12*np.max(np.abs(mu))])[:k]


class Frame3D:
    """space frame with nodal loads; elems: dict(n=(i,j),E,G,A,Iy,Iz,It,ref=xyz)"""

    def __init__(self, nodes, elems, supports):
        self.nodes = np.asarray(nodes, float)
        self.elems = elems
        self.nd = 6*len(nodes)
        fixed = set()
        for nid, dofs in supports:
            fixed |= {6*nid+d for d in dofs}
        self.free = np.array([d for d in range(self.nd) if d not in fixed], int)

    def axes(self, e):
        a, b = self.nodes[e["n"][0]], self.nodes[e["n"][1]]
        L = np.linalg.norm(b-a)
        x = (b-a)/L
        # plane spanned by x and the reference point contains the local z axis
        v = np.asarray(e["ref"], float) - a
        z = v - (v @ x)*x
        z /= np.linalg.norm(z)
        y = np.cross(z, x)
        return L, np.array([x, y, z])

    def kT(self, e):
        L, R = self.axes(e)
        k = np.zeros((12, 12))
        # x-y plane bending about z: (uy, rz); x-z plane bending about y: (uz, -ry)
        kb = k_beam(e["E"]*e["A"], e["E"]*e["Iz"], L)
        ix = [0, 1, 5, 6, 7, 11]
        k[np.ix_(ix, ix)] += kb
        kb = k_beam(0, e["E"]*e["Iy"], L)
        S = np.diag([1, 1, -1, 1, 1, -1.0])
        ix = [0, 2, 4, 6, 8, 10]
        k[np.ix_(ix, ix)] += S @ kb @ S
        gj = e["G"]*e["It"]/L
        k[np.ix_([3, 9], [3, 9])] += gj*np.array([[1, -1], [-1, 1]])
        T = np.kron(np.eye(4), R)
        return k, T

    def solve(self, ploads):
        K = np.zeros((self.nd, self.nd))
        for e in self.elems:
            k, T = self.kT(e)
            d = np.r_[6*e["n"][0]:6*e["n"][0]+6, 6*e["n"][1]:6*e["n"][1]+6]
            K[np.ix_(d, d)] += T.T @ k @ T
        p = np.zeros(self.nd)
        for nid, v in ploads:
            p[6*nid:6*nid+6] += v
        fr = self.free
        Kf = K[np.ix_(fr, fr)]
        sc = 1/np.sqrt(np.maximum(np.abs(np.diag(Kf)), 1e-300))
        Ks = Kf*np.outer(sc, sc)
        self.cond = np.linalg.cond(Ks)
        u = np.zeros(self.nd)
        u[fr] = sc*np.linalg.solve(Ks, sc*p[fr])
        out = []
        for e in self.elems:
            k, T = self.kT(e)
            d = np.r_[6*e["n"][0]:6*e["n"][0]+6, 6*e["n"][1]:6*e["n"][1]+6]
            out.append(k @ (T @ u[d]))
        return u.reshape(-1, 6), out
