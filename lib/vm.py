"""Runtime-monitoring harness shared by every check in /verif/checks.

A check module defines
    PROPERTY   : property id
    RULE       : evidence text: how cases are made and what makes one non-trivial
    WORKLOADS  : {name: (function(rng, mon), quick_cases, thorough_cases)}
    MONITORS   : iterable of monitor names that must have been evaluated
optionally
    PROBES     : list of function(mon): deterministic cases run once in every run
    ASSUMPTIONS: list of strings
and ends with  vm.main(globals()).

A workload function builds one case from its private random generator, runs
the real code of /repo and reports observations to `mon`:

    mon.case(desc)                       describe the case (for replay/evidence)
    mon.ok(name, cond, detail, key=None) one monitor evaluation
    mon.close(name, got, want, rtol, atol, detail)  numeric monitor evaluation
    mon.nontrivial(signature)            mark the case as reaching real behaviour

Every monitor evaluation is counted.  A failing one is a violation, unless its
(property, key) is listed in known_findings.txt.  An exception that escapes
from the code under test is a violation as well (the workloads only make cases
the system supports).  A case is identified by (workload, seed, index), so the
replay file holds just that plus the description and a message; run
    bin/check <id> --replay FILE
to execute it alone.
"""
import os, sys, json, time, hashlib, traceback, argparse, signal, io
import multiprocessing as mp
import contextlib, warnings, collections

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("METKU_REPO", "/repo")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import random
import numpy as np


class CaseTimeout(Exception):
    pass


class CaseSkip(Exception):
    """raised by a workload when a generated case is outside the domain"""


def _alarm(signum, frame):
    raise CaseTimeout("case exceeded its time limit")


def close(got, want, rtol=1e-6, atol=1e-9):
    try:
        g = np.asarray(got, dtype=float)
        w = np.asarray(want, dtype=float)
    except Exception:
        return False
    if g.shape != w.shape:
        try:
            g, w = np.broadcast_arrays(g, w)
        except Exception:
            return False
    if not np.all(np.isfinite(w)):
        return bool(np.all((g == w) | (np.isnan(g) & np.isnan(w))))
    if not np.all(np.isfinite(g)):
        return False
    return bool(np.all(np.abs(g - w) <= atol + rtol * np.abs(w)))


class Mon:
    def __init__(self, prop, known=()):
        self.prop = prop
        self.known = dict(known)
        self.counts = collections.Counter()
        self.cases = 0
        self.skipped = 0
        self.sigs = set()
        self.samples = []
        self.violations = []
        self.known_hits = collections.Counter()
        self.notes = collections.Counter()
        self._desc = None
        self._id = None
        self._failed = set()

    # -- reporting from workloads -------------------------------------
    def case(self, desc):
        self._desc = desc

    def nontrivial(self, sig):
        self.sigs.add(hashlib.md5(repr(sig).encode()).hexdigest()[:16])
        if len(self.samples) < 3 and self._desc is not None:
            self.samples.append(_jsonable(self._desc))

    def note(self, name, n=1):
        self.notes[name] += n

    def ok(self, name, cond, detail="", key=None):
        self.counts[name] += 1
        if cond:
            return True
        self._fail(name, detail, key)
        return False

    def close(self, name, got, want, rtol=1e-6, atol=1e-9, detail="", key=None):
        self.counts[name] += 1
        if close(got, want, rtol, atol):
            return True
        self._fail(name, "%s got=%s want=%s" % (detail, _short(got), _short(want)), key)
        return False

    def _fail(self, name, detail, key):
        key = key or name
        if key in self.known:
            self.known_hits[key] += 1
            return
        if (self._id, name) in self._failed:
            return
        self._failed.add((self._id, name))
        if len(self.violations) < 200:
            self.violations.append(dict(monitor=name, key=key, case=self._id,
                                        desc=_jsonable(self._desc),
                                        detail=str(detail)[:2000]))


def _short(v):
    s = repr(v)
    return s if len(s) < 400 else s[:400] + "..."


def _jsonable(o, depth=0):
    if depth > 6:
        return repr(o)
    if isinstance(o, (str, int, bool)) or o is None:
        return o
    if isinstance(o, float):
        return o if np.isfinite(o) else repr(o)
    if isinstance(o, np.generic):
        return _jsonable(o.item(), depth)
    if isinstance(o, np.ndarray):
        return _jsonable(o.tolist(), depth)
    if isinstance(o, dict):
        return {str(k): _jsonable(v, depth + 1) for k, v in o.items()}
    if isinstance(o, (list, tuple, set)):
        return [_jsonable(v, depth + 1) for v in o]
    return repr(o)


def load_known(prop):
    known = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("KNOWN ") and ("property=%s " % prop) in line:
                rest = line.split("property=%s " % prop, 1)[1]
                if rest.startswith("key="):
                    k, _, text = rest[4:].partition(" ")
                    known[k] = text
    return known


def case_rng(seed, workload, index):
    h = hashlib.sha256(("%s|%s|%s" % (seed, workload, index)).encode()).digest()
    s = int.from_bytes(h[:8], "big")
    r = random.Random(s)
    r.np = np.random.default_rng(s)
    return r


def run_case(fn, mon, seed, wl, idx, limit):
    mon._id = (wl, seed, idx)
    mon._desc = None
    mon.cases += 1
    rng = case_rng(seed, wl, idx)
    out = io.StringIO()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                with np.errstate(all="ignore"):
                    fn(rng, mon)
    except CaseSkip:
        mon.skipped += 1
    except CaseTimeout:
        mon.ok("terminates", False, "case did not finish within %d s" % limit)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = [f for f in tb if os.path.realpath(f.filename).startswith(os.path.realpath(REPO))]
        where = inrepo[-1] if inrepo else tb[-1]
        mon.ok("no_exception", False, "%s: %s at %s:%s in %s" % (
            type(e).__name__, e, where.filename, where.lineno, where.name),
            key="exc:%s:%s" % (type(e).__name__, where.name))
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def _worker(args):
    g, seed, jobs, limit, known, deadline = args
    mon = Mon(g["PROPERTY"], known)
    done = 0
    for wl, idx in jobs:
        if time.time() > deadline:
            break
        fn = g["WORKLOADS"][wl][0]
        mon.nworkload = wl
        run_case(fn, mon, seed, wl, idx, limit)
        mon.notes["cases:" + wl] += 1
        done += 1
    for a in ("known",):
        pass
    return dict(counts=mon.counts, cases=mon.cases, skipped=mon.skipped, sigs=mon.sigs,
                samples=mon.samples, violations=mon.violations,
                known_hits=mon.known_hits, notes=mon.notes)


_G = None


def _pool_worker(a):
    seed, jobs, limit, known, deadline = a
    return _worker((_G, seed, jobs, limit, known, deadline))


def main(g):
    global _G
    _G = g
    prop = g["PROPERTY"]
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--workload")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    known = load_known(prop)
    # provenance: the code under test must come from REPO
    import metku
    src = os.path.realpath(os.path.dirname(list(metku.__path__)[0] + "/"))
    assert src.startswith(os.path.realpath(REPO)), "metku imported from %s" % src

    if a.replay:
        rp = json.load(open(a.replay))
        wl, seed, idx = rp["case"]
        mon = Mon(prop, known)
        fn = dict(WL=None)
        if wl == "probe":
            f = g["PROBES"][idx]
            run_case(lambda rng, m: f(m), mon, seed, wl, idx, 600)
        else:
            run_case(g["WORKLOADS"][wl][0], mon, seed, wl, idx, 600)
        for v in mon.violations:
            print(json.dumps(v, indent=1))
            print("VIOLATION property=%s replay=%s" % (prop, a.replay))
        sys.exit(1 if mon.violations else 0)

    limit = 120 if tier == "quick" else 300
    budget = 500 if tier == "quick" else 3000
    deadline = t0 + budget
    jobs = []
    for wl, (fn, nq, nt) in g["WORKLOADS"].items():
        if a.workload and wl != a.workload:
            continue
        n = nq if tier == "quick" else nt
        n = max(1, int(n * a.scale))
        jobs += [(wl, i) for i in range(n)]
    # interleave so every worker sees every workload
    rs = random.Random(12345)
    rs.shuffle(jobs)
    nproc = max(1, min(a.jobs, len(jobs)))
    chunks = [jobs[i::nproc * 4] for i in range(nproc * 4)]
    chunks = [c for c in chunks if c]
    tot = Mon(prop, known)
    # deterministic probes, in-process
    for i, f in enumerate(g.get("PROBES", [])):
        run_case(lambda rng, m, f=f: f(m), tot, a.seed, "probe", i, limit)
        tot.notes["cases:probe"] += 1
    results = []
    if nproc == 1:
        results = [_pool_worker((a.seed, c, limit, known, deadline)) for c in chunks]
    else:
        ctx = mp.get_context("fork")
        with ctx.Pool(nproc) as pool:
            for r in pool.imap_unordered(_pool_worker,
                                         [(a.seed, c, limit, known, deadline) for c in chunks]):
                results.append(r)
    for r in results:
        tot.counts += r["counts"]
        tot.cases += r["cases"]
        tot.skipped += r["skipped"]
        tot.sigs |= r["sigs"]
        tot.samples += r["samples"]
        tot.violations += r["violations"]
        tot.known_hits += r["known_hits"]
        tot.notes += r["notes"]
    missing = []
    if not a.workload:
        missing = [m for m in g.get("MONITORS", []) if tot.counts[m] == 0]
    tot.violations.sort(key=lambda v: (v["case"], v["monitor"]))
    tot.samples.sort(key=lambda s: json.dumps(s, sort_keys=True))
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=a.seed, level="exploration",
              coverage=dict(evaluations=tot.cases, distinct_nontrivial=len(tot.sigs),
                            rule=g["RULE"], samples=tot.samples[:6],
                            monitor_evaluations=dict(sorted(tot.counts.items())),
                            observed=dict(sorted(tot.notes.items())),
                            skipped_outside_domain=tot.skipped,
                            known_finding_hits=dict(tot.known_hits)),
              assumptions=list(g.get("ASSUMPTIONS", [])),
              wall_s=round(wall, 3), violations=len(tot.violations))
    if not a.workload:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
    for k, text in known.items():
        if tot.known_hits[k]:
            print("KNOWN-FINDING: property=%s %s" % (prop, text))
    if a.v:
        print(json.dumps(ev, indent=1))
    rc = 0
    seen = set()
    for v in tot.violations:
        if v["key"] in seen:
            continue
        seen.add(v["key"])
        if len(seen) > 10:
            break
        rpath = os.path.join(VERIF, "evidence", "%s.replay.%d.json" % (prop, len(seen)))
        with open(rpath, "w") as fh:
            json.dump(v, fh, indent=1)
        print("  [%s] case=%s\n     %s" % (v["monitor"], v["case"], v["detail"][:600]))
        print("VIOLATION property=%s replay=%s" % (prop, rpath))
        rc = 1
    if rc == 0 and missing:
        # a monitor that observed nothing cannot vouch for the property
        rpath = os.path.join(VERIF, "evidence", "%s.replay.0.json" % prop)
        json.dump(dict(case=["none", a.seed, 0], missing=missing), open(rpath, "w"))
        print("  monitors never reached: %s" % missing)
        print("VIOLATION property=%s replay=%s" % (prop, rpath))
        rc = 1
    print("%s %s seed=%d cases=%d distinct=%d monitor-evaluations=%d skipped=%d violations=%d wall=%.1fs"
          % (prop, tier, a.seed, tot.cases, len(tot.sigs), sum(tot.counts.values()),
             tot.skipped, len(tot.violations), wall))
    sys.stdout.flush()
    sys.exit(rc)
