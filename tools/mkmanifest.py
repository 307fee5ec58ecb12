#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the registered checks."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sa.rules import CHECKS
NA = {
 "N01": "a statement about floating-point optimisation results; no static rule over the source bounds it",
 "N03": "correctness of string parsing against external batch-system grammars; the right answer is not in the source, so there is no static oracle",
 "N04": "arithmetic optimality over run-time node and worker counts; needs search or proof over integers, not a structural rule",
 "N05": "liveness of an open system (user functions, schedulers, time-outs); static analysis of this code bounds none of them",
 "N06": "statistical independence of random streams is not a structural property of the source",
}
TECH = {}
from sa.rules import TECHNIQUE  # noqa
NOTE = ("Every abstract path (or every matching construct) of the current source is decided; guards the analyser cannot decide are explored both "
        "ways. Trusts: the Python AST, the listed assumptions in the evidence, numpy/stdlib calls behaving as documented. Constructs it cannot "
        "interpret are left undecided rather than reported.")
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for d in props:
    i = d["id"]
    if i in CHECKS:
        checks.append({"property": i, "quick_cmd": f"python3 -m sa.check {i}", "thorough_cmd": f"python3 -m sa.check {i}",
                       "technique": TECHNIQUE.get(i, "static analysis: path-sensitive abstract interpretation of the Python source"), "level": "other", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, "no static check built for it yet")})
json.dump({"version": 1, "setup_cmd": "python3 -c 'import sa.check'", "checks": checks, "not_applicable": na,
           "notes": "No hooks: the checks only read /repo's source."}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])
