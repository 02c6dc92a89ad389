"""Planting tool: python3 tools/seed.py FILE.py...   (development only)

FILE defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source).
Builds seeded/<ID>/, verifies it against /repo and reports which checks catch it."""
import sys, os, subprocess, json, runpy, shutil, tempfile, re
REPO, VERIF, PY = "/repo", "/verif", "/opt/venv/bin/python"
BASE = "270479a"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def one(fn, checks=None):
    d = runpy.run_path(fn)
    out = os.path.join(VERIF, "seeded", d["ID"])
    assert sh("git -C /repo status --porcelain").stdout.strip() == "", "repo dirty"
    work = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    try:
        sh("git -C /repo worktree add --detach %s/r HEAD" % work)
        w = work + "/r"
        for f, old, new, *occ in d["EDITS"]:
            p = os.path.join(w, f)
            s = open(p).read()
            if occ:     # occurrence number, from the end when negative
                parts = s.split(old)
                k = occ[0] if occ[0] >= 0 else len(parts) - 1 + occ[0]
                s = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
            else:
                assert s.count(old) == 1, "%s: %d matches of %r" % (f, s.count(old), old)
                s = s.replace(old, new)
            open(p, "w").write(s)
        patch = sh("git -C %s diff" % w).stdout
        # removed lines must be original
        for f in {e[0] for e in d["EDITS"]}:
            df = sh("git -C %s diff -U0 -- %s" % (w, f)).stdout
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", df, re.M):
                a, n = int(m.group(1)), int(m.group(2) or 1)
                if n == 0:
                    print("  note: pure insertion at", f, a)
                    continue
                bl = sh("git -C /repo blame -s -L %d,%d HEAD -- %s" % (a, a + n - 1, f)).stdout
                for l in bl.splitlines():
                    if not l.startswith("^"):
                        print("  WARNING not original:", l[:100])
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(patch)
        open(out + "/demo.py", "w").write(d["DEMO"].lstrip("\n"))
        open(out + "/demo.sh", "w").write('#!/bin/bash\n# run with cwd /repo\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        os.chmod(out + "/demo.sh", 0o755)
        json.dump(dict(property=d["PROPERTY"], needs=d["NEEDS"], what_it_breaks=d["BREAKS"]), open(out + "/meta.json", "w"), indent=1)
        a = sh("cd /repo && bash %s/demo.sh" % out)
        b = sh("cd %s && bash %s/demo.sh" % (w, out))
        print(d["ID"], "clean demo rc", a.returncode, "patched rc", b.returncode, (b.stdout + b.stderr).strip().splitlines()[-1:])
        if a.returncode:
            print(a.stdout, a.stderr)
        # checks
        e = dict(os.environ, METKU_REPO=w)
        props = [d["PROPERTY"]] if checks is None else checks
        for p in props:
            c = sh("%s/bin/check %s" % (VERIF, p), env=e)
            print("   check", p, "rc", c.returncode, [l for l in c.stdout.splitlines() if l.startswith("  [")][:4])
    finally:
        sh("git -C /repo worktree remove --force %s/r" % work)
        shutil.rmtree(work, ignore_errors=True)
    # stable tests
    sh("git -C /repo apply %s/patch.diff" % out)
    try:
        t = sh("bash /verif/tools/stable.sh")
        print("   tests:", (t.stdout + t.stderr).strip().splitlines()[-1:])
    finally:
        sh("git -C /repo checkout -- .")


if __name__ == "__main__":
    for f in sys.argv[1:]:
        one(f)
