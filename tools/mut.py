#!/usr/bin/env python3
"""Developer tool: apply textual mutants / refactorings to a scratch copy of the package and run checks on it.

mutants/*.txt blocks:
  === <ids> <expect: 1 alarm | 0 quiet> <file> [:: note]
  <<<<
  old text
  ----
  new text
  >>>>      (several <<<< >>>> pairs may follow one header)
usage: mut.py [-k substring] [file...]"""
import concurrent.futures as cf
import glob
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))


def parse(fn):
    out = []
    cur = None
    mode = None
    for ln in open(fn):
        if ln.startswith("=== "):
            h, _, note = ln[4:].strip().partition(" :: ")
            ids, exp, f = h.split()
            cur = {"ids": ids.split(","), "exp": int(exp), "file": f, "note": note, "edits": [], "src": os.path.basename(fn)}
            out.append(cur)
        elif ln.startswith("<<<<"):
            parts = ln.split()
            mode, buf = "old", []
            ed = [parts[1] if len(parts) > 1 else cur["file"], "", ""]
        elif ln.startswith("----") and mode == "old":
            ed[1] = "".join(buf)
            mode, buf = "new", []
        elif ln.startswith(">>>>") and mode == "new":
            ed[2] = "".join(buf)
            cur["edits"].append(ed)
            mode = None
        elif mode:
            buf.append(ln)
    return out


def one(m):
    d = tempfile.mkdtemp(prefix="mut_")
    try:
        shutil.copytree(os.environ.get("R", "/repo") + "/libensemble", d + "/libensemble", ignore=shutil.ignore_patterns("tests", "__pycache__", "*.npy"))
        for f, old, new in m["edits"]:
            old, new = old.rstrip("\n"), new.rstrip("\n")
            p = f"{d}/libensemble/{f}"
            s = open(p).read()
            if s.count(old) < 1:
                return m, "STALE", f"text not found in {f}: {old[:80]!r}"
            open(p, "w").write(s.replace(old, new, 1))
            compile(open(p).read(), p, "exec")
        txt = ""
        got = 0
        for i in m["ids"]:
            r = subprocess.run([sys.executable, "-m", "sa.check", i, "--root", d, "--no-write"], cwd=os.path.dirname(HERE), capture_output=True, text=True)
            if r.returncode != 0:
                got = r.returncode if got == 0 else got
                txt += r.stdout[-600:] + r.stderr[-600:]
        return m, ("ok" if got == m["exp"] else f"GOT {got}"), txt
    finally:
        shutil.rmtree(d)


def main(a):
    k = None
    if a[:1] == ["-k"]:
        k = a[1]
        a = a[2:]
    v = "-v" in a
    a = [x for x in a if x != "-v"]
    files = a or sorted(glob.glob(HERE + "/mutants/*.txt"))
    ms = [m for f in files for m in parse(f)]
    if k:
        ms = [m for m in ms if k in ",".join(m["ids"]) or k in m["note"]]
    bad = 0
    with cf.ThreadPoolExecutor(8) as ex:
        for m, r, t in ex.map(one, ms):
            if r != "ok" or v:
                bad += r != "ok"
                print(f"{r:8} {','.join(m['ids'])} exp={m['exp']} {m['file']} :: {m['note']}\n   {t[:700]}")
    print(f"{len(ms)} cases, {bad} unexpected")


main(sys.argv[1:])
