#!/usr/bin/env python3
"""DESIGN.md = design/head.md + one section per property (from the rules themselves) + design/tail.md."""
import ast, glob, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sa.rules import CHECKS, TECHNIQUE
sys.path.insert(0, os.path.join(ROOT, "tools"))
rules = {}
for f in sorted(glob.glob(os.path.join(ROOT, "sa/rules/*.py"))):
    t = ast.parse(open(f).read())
    for n in t.body:
        if not isinstance(n, ast.FunctionDef):
            continue
        for d in n.decorator_list:
            if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "check":
                pid = d.args[0].value
                seen = rules.setdefault(pid, (os.path.relpath(f, ROOT), []))
                for c in ast.walk(n):
                    if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "rule" and len(c.args) == 2:
                        try:
                            seen[1].append((ast.literal_eval(c.args[0]), ast.literal_eval(c.args[1])))
                        except ValueError:
                            pass
man = {c["property"]: c for c in json.load(open(os.path.join(ROOT, "MANIFEST.json")))["checks"]}
na = {c["property"]: c["reason"] for c in json.load(open(os.path.join(ROOT, "MANIFEST.json")))["not_applicable"]}
out = [open(os.path.join(ROOT, "tools/design/head.md")).read().rstrip(), ""]
for line in open(os.path.join(ROOT, "properties.jsonl")):
    d = json.loads(line)
    i = d["id"]
    out.append(f"### {i} — {d['title']}")
    if i in na:
        out += [f"Not applicable: {na[i]}.", ""]
        continue
    f, rs = rules[i]
    out.append(f"*Method* ({f}): {man[i]['technique']}.")
    q = d["quantifier"]["text"] if isinstance(d.get("quantifier"), dict) else ""
    out.append(f"*Ranges over*: {q}. *Beyond tests*: {d['why_tests_cant']}.")
    ev = os.path.join(ROOT, "evidence", i + ".json")
    if not rs and os.path.exists(ev):
        rs = [(k, v["rule"]) for k, v in json.load(open(ev))["coverage"]["rules"].items()]
    for k, v in rs:
        out.append(f"- `{k}`: {v}")
    if os.path.exists(ev):
        e = json.load(open(ev))
        c = e["coverage"]
        b = "; ".join(e["assumptions"][:6])
        out.append(f"*Cost and size*: {c['obligations']} obligations over {len(c['functions_analysed'])} functions, {max(round(e['wall_s']), 1)} s."
                   + (f" *Assumes*: {b}." if b else ""))
    out.append("")
tab = ["| bug | caught by | needs | breaks |", "|---|---|---|---|"]
caught = json.load(open(os.path.join(ROOT, "tools/design/caught.json")))
for f in sorted(glob.glob(os.path.join(ROOT, "seeded/*/meta.json"))):
    m, n = json.load(open(f)), os.path.basename(os.path.dirname(f))
    tab.append(f"| {n} | {' '.join(caught.get(n, [])) or 'not caught'} | {m['needs']} | {m['what_it_breaks']} |")
out.append(open(os.path.join(ROOT, "tools/design/tail.md")).read().rstrip().replace("@SEEDS@", "\n".join(tab)))
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out) + "\n")
print(len(out), "lines")
