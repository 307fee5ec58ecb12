"""Obligations, findings, evidence and exit codes of one property check."""
import json
import os
import time

from .absint import Engine
from .loader import AnalysisBroken, Project

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")


class Ctx:
    """One run of one property check over one source tree."""

    def __init__(self, pid, project, tier="quick"):
        self.pid, self.p, self.tier = pid, project, tier
        self.obs = []            # (rule, construct, ok, where, detail)
        self.engines = []
        self.rules = {}
        self.assume = []
        self.notes = []
        self.counts = {}

    # ---------------------------------------------------------------- obligations
    def rule(self, rid, text):
        self.rules[rid] = text

    def ob(self, rid, construct, ok, where="", detail=""):
        assert rid in self.rules, rid
        self.obs.append((rid, construct, bool(ok), where, detail))
        return bool(ok)

    def floor(self, what, n, least):
        """A scan that found fewer instances than exist in a sane tree decides nothing."""
        self.counts[what] = n
        if n < least:
            raise AnalysisBroken(f"{self.pid}: only {n} {what} found (at least {least} expected): the scan is not looking at the code")

    def assumption(self, t):
        if t not in self.assume:
            self.assume.append(t)

    def engine(self, rule, types=None):
        e = Engine(self.p, rule, types)
        self.engines.append(e)
        return e

    def where(self, fi, node=None):
        return f"{fi.module.path}:{getattr(node, 'lineno', fi.node.lineno)} ({fi.qual.split(':')[-1]})"

    # ---------------------------------------------------------------- results
    def findings(self):
        out = {}
        for rid, con, ok, where, detail in self.obs:
            if not ok:
                out.setdefault(f"{rid} @ {con}", []).append((where, detail))
        return out

    def evidence(self, tier, seed, wall, violations, known):
        fns = set()
        calls = nodes = loops = 0
        for e in self.engines:
            fns |= e.funcs_seen
            calls += e.calls_seen
            nodes += len(e.nodes_seen)
            loops += e.loop_iters
        per = {}
        for rid, con, ok, *_ in self.obs:
            d = per.setdefault(rid, {"rule": self.rules[rid], "obligations": 0, "discharged": 0, "constructs": set()})
            d["obligations"] += 1
            d["discharged"] += ok
            d["constructs"].add(con)
        for d in per.values():
            d["constructs"] = sorted(d["constructs"])[:60]
        cov = {
            "explanation": "Static analysis of the current source: every obligation below was decided by the named rule on all "
                           "abstract paths (or all matching syntax) of the functions listed; nothing was executed.",
            "obligations": len(self.obs),
            "discharged": sum(1 for o in self.obs if o[2]),
            "rules": per,
            "functions_analysed": sorted(fns),
            "analysed_calls": calls,
            "analysed_statements": nodes,
            "abstract_loop_iterations": loops,
            "engine_runs": len(self.engines),
            "source_files_parsed": self.p.files,
            "source_sha256": self.p.sha.hexdigest(),
            "instance_counts": self.counts,
        }
        if known:
            cov["known_findings"] = known
        return {"property": self.pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
                "assumptions": self.assume, "wall_s": round(wall, 3), "violations": violations}


def known_findings(pid):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("known: property=") and line.split()[1] == f"property={pid}":
                key, _, text = line.split(None, 2)[2].partition(" :: ")
                out[key.strip()] = text.strip()
    return out


def run_check(pid, fn, root="/repo", tier="quick", seed=1, out=print, write=True):
    """-> exit code"""
    t0 = time.time()
    try:
        ctx = Ctx(pid, Project(root), tier)
        fn(ctx)
        if not ctx.obs:
            raise AnalysisBroken(f"{pid}: no obligations were generated")
    except AnalysisBroken as e:
        out(f"ANALYSIS-BROKEN property={pid} {e}")
        return 2
    except Exception:
        import traceback
        out(traceback.format_exc())
        out(f"ANALYSIS-BROKEN property={pid} the analysis failed on this source")
        return 2
    fnd = ctx.findings()
    kn = known_findings(pid)
    new = {k: v for k, v in fnd.items() if k not in kn}
    for k in fnd:
        if k in kn:
            out(f"KNOWN-FINDING: property={pid} {k} :: {kn[k]}")
    wall = time.time() - t0
    ev = ctx.evidence(tier, seed, wall, len(new), sorted(k for k in fnd if k in kn))
    if write:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    for k, v in new.items():
        for where, detail in v[:4]:
            out(f"  {k}\n      at {where}: {detail}")
    if new:
        path = os.path.join(VERIF, "evidence", f"{pid}.replay.txt")
        if write:
            with open(path, "w") as f:
                for k, v in new.items():
                    f.write(f"{k}\n  rule: {ctx.rules[k.split(' @ ')[0]]}\n")
                    for where, detail in v:
                        f.write(f"    at {where}: {detail}\n")
                f.write(f"\nreproduce: cd /verif && python3 -m sa.check {pid}\n")
        out(f"VIOLATION property={pid} replay={path}")
        return 1
    out(f"OK property={pid} obligations={len(ctx.obs)} functions={len(ev['coverage']['functions_analysed'])} wall={wall:.1f}s")
    return 0
