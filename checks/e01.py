"""E01: load combinations of EN 1990 (Finnish National Annex) for member loads."""
import os, sys, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vm
from metku.eurocodes.en1991 import en1991 as C

PROPERTY = "E01"
RULE = ("one case is one random set of permanent, area, imposed, snow and wind loads (directions x and y, one or more load ids each, positive and uplift) of a random building category, consequence class and spacing, "
        "added in random portions to separate combiners or a MultiCombiner with reductions of the imposed load and evaluations in between; the combined x and y loads per id are compared with the governing combination of EN 1990 "
        "computed from the load data, as is the split result, and the loads given by the user must stay as they were. Non-trivial: distinct (category, kinds of loads, governing combination, history).")
MONITORS = ["ultimate limit state", "characteristic", "frequent", "quasi-permanent", "accidental", "split result", "user loads", "repeated", "sums", "factors"]

PSI = {"A": (0.7, 0.5, 0.3), "B": (0.7, 0.5, 0.3), "C": (0.7, 0.7, 0.3), "D": (0.7, 0.7, 0.6), "E": (1.0, 0.9, 0.8)}
KFI = {1: 0.9, 2: 1.0, 3: 1.1}


class L:
    def __init__(self, r, kinds, neg):
        self.kind = r.choice(kinds)
        v = r.choice([r.uniform(0.2, 12), round(r.uniform(0.2, 12), 1), round(r.uniform(1, 8))])
        if self.kind == "snow":
            v = r.choice([r.uniform(1, 4.5), 2.75, 2.0, 2.7499, 2.5])
        if neg and self.kind == "wind" and r.random() < 0.4:
            v = -v
        self.raw = v
        self.dir = r.choice("xyyy") if self.kind != "wind" else r.choice("xy")
        self.ids = r.sample(range(6), r.choice([1, 1, 2, 3]))
        cls = {"G": C.Load, "area": C.AreaLoad, "imposed": C.ImposedLoad, "snow": C.SnowLoad, "wind": C.WindLoad}[self.kind]
        self.obj = cls(v)
        self.before = (v, list(self.obj.comb_factors))

    @property
    def isG(self):
        return self.kind in ("G", "area")


class Model:
    def __init__(self, cat, cc, kk):
        self.cat, self.kfi, self.kk = cat, KFI[cc], kk
        self.loads = []      # [value, psi, load]

    def add(self, l):
        psi = {"G": None, "area": None, "imposed": PSI[self.cat], "wind": (0.6, 0.2, 0.0), "snow": (0.7, 0.4 if l.raw < 2.75 else 0.5, 0.2)}[l.kind]
        self.loads.append([l.raw * (1 if l.kind == "G" else self.kk), psi, l])

    def reduce(self, length):
        if self.cat == "E":
            return
        for q in self.loads:
            if q[2].kind == "imposed":
                q[0] *= min(1.0, max(0.7, 5 / 7 * q[1][0] + 10 / (self.kk * length)))

    def candidates(self, what):
        """list of (value, [(role, load entry, factor)])"""
        G = [q for q in self.loads if q[2].isG]
        Q = [q for q in self.loads if not q[2].isG]
        out = []
        k = self.kfi
        if what == "uls":
            out.append([("G", q, 1.35 * k) for q in G])
            for l in Q:
                out.append([("G", q, 1.15 * k) for q in G] + [("Q1", l, 1.5 * k)] + [("Qi", q, 1.5 * k * q[1][0]) for q in Q if q is not l])
        elif what in ("char", "freq"):
            for l in Q:
                out.append([("G", q, 1.0) for q in G] + [("Q1", l, 1.0 if what == "char" else l[1][1])] + [("Qi", q, q[1][0 if what == "char" else 2]) for q in Q if q is not l])
            if not Q:
                out.append([("G", q, 1.0) for q in G])
        elif what == "quasi":
            out.append([("G", q, 1.0) for q in G] + [("Qi", q, q[1][2]) for q in Q])
        else:
            out.append([("G", q, 1.0) for q in G])
            for l in Q:
                out.append([("G", q, 1.0) for q in G] + [("Q1", l, l[1][1] if l[2].kind in ("snow", "wind") else l[1][2])] + [("Qi", q, q[1][2]) for q in Q if q is not l])
        return [(sum(q[0] * f for _, q, f in c), c) for c in out]

    @staticmethod
    def result(parts):
        n = max(max(q[2].ids) for _, q, _ in parts) + 1
        X, Y, cnt = [None] * n, [None] * n, [0] * n
        for _, q, f in parts:
            for i in q[2].ids:
                if X[i] is None:
                    X[i] = Y[i] = 0.0
                cnt[i] += 1
                if q[2].dir == "x":
                    X[i] += q[0] * f
                else:
                    Y[i] += q[0] * f
        return X, Y, cnt


def same(got, want):
    X, Y, cnt = want
    for g, w in ((got["x"], X), (got["y"], Y)):
        if len(g) != len(w):
            return False
        for a, b, c in zip(g, w, cnt):
            # every load is rounded to two decimals
            if (a is None) != (b is None) or (a is not None and abs(a - b) > 0.0051 * c + 1e-6):
                return False
    return True


NAME = {"uls": "ultimate limit state", "char": "characteristic", "freq": "frequent", "quasi": "quasi-permanent", "acc": "accidental"}


def judge(mon, M, what, got, d, split=None):
    cand = M.candidates(what)
    top = max(v for v, _ in cand)
    best = [c for v, c in cand if v >= top - 1e-9 * max(1, abs(top)) and c]
    ok = any(same(got, M.result(c)) for c in best)
    mon.ok(NAME[what], ok, "%s %s: got %s, governing %s" % (d, what, got, [M.result(c)[:2] for c in best]))
    if split is not None and ok:
        c = next((c for c in best if same(got, M.result(c)) and all(
            (p in split) == any(q[0] == p for q in c) and (p not in split or same(split[p], M.result([q for q in c if q[0] == p]))) for p in ("G", "Q1", "Qi"))), None)
        mon.ok("split result", c is not None, "%s %s split %s" % (d, what, split))
    return "G" if not any(r == "Q1" for r, _, _ in best[0]) else next(q[2].kind for r, q, _ in best[0] if r == "Q1")


def w_combine(r, mon):
    cat = r.choice("ABCDE")
    cc = r.choice([1, 2, 3])
    kk = r.choice([1, r.uniform(2, 10), 6])
    n = r.randint(1, 6)
    kinds = r.choice([["G", "area", "imposed", "snow", "wind"], ["G", "imposed", "snow", "wind"], ["G", "snow"], ["imposed", "snow", "wind"], ["G", "area"]])
    hasG = "G" in kinds
    loads = [L(r, kinds, hasG) for _ in range(n)]
    if any(l.raw < 0 for l in loads):
        loads.insert(0, L(r, ["G"], False))
    mon.case(dict(cat=cat, cc=cc, kk=kk, loads=[(l.kind, l.raw, l.dir, l.ids) for l in loads]))
    multi = r.random() < 0.4
    M = Model(cat, cc, kk)
    comb = C.MultiCombiner(cat, cc, kk) if multi else {"uls": C.ULSCombiner(cat, cc, kk), "sls": C.SLSCombiner(cat, cc, kk), "acc": C.ACCCombiner(cat, cc, kk)}
    todo = list(loads)
    gov = ()
    red = 0
    while todo:
        k = r.randint(1, len(todo))
        batch, todo = todo[:k], todo[k:]
        args = [[l.obj, l.dir, l.ids] for l in batch]
        if multi:
            comb.add(*args)
        else:
            for c in comb.values():
                if r.random() < 0.5:
                    c.add(*args)
                else:
                    for a in args:
                        c.add(a)
        for l in batch:
            M.add(l)
        if r.random() < 0.3:
            length = r.uniform(1, 30)
            red += 1
            M.reduce(length)
            if multi:
                comb.use_reduction_factor(length)
            else:
                for c in comb.values():
                    c.use_reduction_factor(length)
        if any(l.raw < 0 for l in todo) or not todo or r.random() < 0.5:
            d = "after %d loads" % len(M.loads)
            for rep in range(r.choice([1, 1, 2])):
                if multi:
                    res = comb.get_result()
                else:
                    order = ["uls", "sls", "acc"]
                    r.shuffle(order)
                    res = {w: comb[w].get_result() for w in order}
                sp = (comb.SLS if multi else comb["sls"]).get_result(True) if r.random() < 0.5 else None
                gov = (judge(mon, M, "uls", res["uls"], d),) + tuple(judge(mon, M, w, res["sls"][w], d, sp and sp[w]) for w in ("char", "freq", "quasi")) + (judge(mon, M, "acc", res["acc"], d),)
                if rep:
                    mon.ok("repeated", res == prev, "%s: second evaluation differs: %s %s" % (d, prev, res))
                prev = res
    u = comb.ULS if multi else comb["uls"]
    G = sum(q[0] for q in M.loads if q[2].isG)
    mon.close("sums", u.sum_G_k(), G, 1e-9, 1e-9, "permanent loads")
    for i in range(3):
        mon.close("sums", u.sum_Q_k(i), sum(q[0] * q[1][i] for q in M.loads if not q[2].isG), 1e-9, 1e-9, "variable loads psi%d" % i)
        for k, ql in enumerate(u.Q_k):
            mon.close("sums", u.sum_Q_k_excluding(ql[0], i), sum(q[0] * q[1][i] for j, q in enumerate([q for q in M.loads if not q[2].isG]) if j != k), 1e-9, 1e-9, "others psi%d" % i)
    for l in loads:
        mon.ok("user loads", l.obj.value == l.before[0] and list(l.obj.comb_factors) == l.before[1] and l.obj.final_value is None, "load %s changed to %s %s" % (l.kind, l.obj.value, l.obj.comb_factors))
        i = r.randrange(3)
        mon.close("factors", l.obj.combined(i), l.raw * l.before[1][i], 1e-12, 1e-12, "combined")
        if l.kind == "snow":
            mon.ok("factors", tuple(l.obj.comb_factors) == (0.7, 0.4 if l.raw < 2.75 else 0.5, 0.2), "snow %s %s" % (l.raw, l.obj.comb_factors))
    for k, v in PSI.items():
        mon.ok("factors", tuple(C.comb_factors[k]) == v, "category %s %s" % (k, C.comb_factors[k]))
    mon.nontrivial((cat, cc, multi, red, gov, tuple(sorted(l.kind for l in loads))))


WORKLOADS = {"combine": (w_combine, 12000, 200000)}

if __name__ == "__main__":
    vm.main(globals())
