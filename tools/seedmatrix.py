#!/usr/bin/env python3
"""Runs every check on every planted bug (scratch copies) and writes tools/design/caught.json.  [NAME...] limits the bugs."""
import concurrent.futures as cf, glob, json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("R", "/repo")
out = os.path.join(ROOT, "tools/design/caught.json")
res = json.load(open(out)) if os.path.exists(out) else {}
ids = [c["property"] for c in json.load(open(os.path.join(ROOT, "MANIFEST.json")))["checks"]]
names = sys.argv[1:] or sorted(os.path.basename(os.path.dirname(f)) for f in glob.glob(os.path.join(ROOT, "seeded/*/meta.json")))
for n in names:
    t = tempfile.mkdtemp(prefix="sm.")
    shutil.copytree(os.path.join(SRC, "libensemble"), os.path.join(t, "libensemble"), ignore=shutil.ignore_patterns("tests"))
    subprocess.run(["git", "init", "-q", "."], cwd=t)
    r = subprocess.run(["git", "apply", os.path.join(ROOT, "seeded", n, "patch.diff")], cwd=t)
    if r.returncode:
        print(n, "does not apply")
        continue

    def one(i):
        q = subprocess.run([sys.executable, "-m", "sa.check", i, "--root", t, "--no-write"], cwd=ROOT, capture_output=True, text=True, timeout=900)
        return i, q.returncode
    with cf.ThreadPoolExecutor(int(os.environ.get("N", "6"))) as ex:
        rc = dict(ex.map(one, ids))
    res[n] = [i for i in ids if rc[i] == 1]
    print(n, res[n], {i: c for i, c in rc.items() if c not in (0, 1)} or "", flush=True)
    shutil.rmtree(t)
    json.dump(res, open(out, "w"), indent=1)
