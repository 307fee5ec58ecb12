"""S03: whatever a communication mode starts is released on every exit."""
import ast

from . import check
from .common import *  # noqa
from .comms import Sim, exc_of

M = LIB + "libE"
COMMS = LIB + "comms.comms:"


class Flags(Sim):
    """st.rs is a set of flags; label() returns ("+", flag), ("-", predicate) or a list of those."""

    def on_event(self, ev, st, eng):
        r = self.l(ev, st)
        for op, x in (r if isinstance(r, list) else [r] if r else []):
            have = st.rs or frozenset()
            st.rs = have | {x} if op == "+" else frozenset(f for f in have if not x(f))


def quiet(ev):
    """Calls that do not fail: logging, message texts, plain containers."""
    t = ev.base
    return ev.name in ("append", "debug", "info", "warning", "error", "manager_warning", "format", "format_exc", "get", "copy") or t is not None and "logger" in show(t)


def failing(p, *extra):
    """In-repo calls, and calls of given functions, may fail."""
    def raises(ev, st):
        if quiet(ev) or ev.name in ("specs_dump", "Timer"):
            return False
        if ev.callee in p.funcs or ev.callee in p.classes or ev.name in extra:
            return ["Exception"]
        return False
    return raises


def loops_over_param(fi):
    for n in ast.walk(fi.node):
        if isinstance(n, ast.For) and isinstance(n.iter, ast.Name) and n.iter.id in fi.params:
            return n
    return None


def has_call(fi, *names):
    return any(method_name(c) in names for c in all_calls(fi))


def anchors(ctx):
    """The functions of libE.py by what they do."""
    p = ctx.p
    mod = [f for f in p.funcs.values() if f.module.name == M and f.parent is None]
    mm = LIB + "manager:manager_main"
    a = {
        "manager": [f for f in mod if any(method_name(c) == "manager_main" for c in all_calls(f))],
        "killers": [f for f in mod if loops_over_param(f) and (has_call(f, "terminate", "result") or reaches(p, f, lambda g: g.module.name == M and has_call(g, "terminate", "result")))],
        "team": [f for f in mod if any(isinstance(n, ast.Name) and n.id == "QCommProcess" for n in ast.walk(f.node))],
        "launch": [f for f in mod if has_call(f, "await_workers")],
    }
    for k, v in a.items():
        if not v:
            raise AnalysisBroken(f"libE.py: no function plays the part of '{k}' ({mm})")
    return a


def release_labels(ev, L_of, is_release, killers):
    """Flag changes for releasing the elements of a list, one by one in a loop or all at once by a killer."""
    if ev.kind == "loop" and ev.extra is not None:
        return [("+", ("rel", ev.extra)), ("-", lambda f: f == ("hit", ev.extra))]
    if ev.kind == "iter" and ev.extra is not None:
        return [("-", lambda f: f == ("hit", ev.extra))]
    if ev.kind in ("call", "callin"):
        e = is_release(ev)
        if e is not None and e[0] == "elem":
            return [("+", ("hit", e[1]))]
    return None


def everything(flags, L):
    return ("rel", L) in flags


@check("S03", "typestate analysis of every started resource (workers, launched processes, communicator, server, log) over all exits of the main routines, exceptional ones included")
def s03(ctx):
    p = ctx.p
    ctx.rule("cleanup-always", "the manager routine runs the given clean-up on every exit")
    ctx.rule("hand-over", "what was started is released, or handed to the manager routine's clean-up, on every exit")
    ctx.rule("cleanup-complete", "the clean-up releases everything it was given, whatever fails meanwhile")
    ctx.rule("each-worker", "every worker is ended, whatever the others do; one that does not end in time is told to stop and terminated")
    ctx.rule("scoped", "a duplicated communicator is freed, a network server shut down, on every exit")
    ctx.rule("partial-team", "workers already started are ended when starting the rest fails")
    an = anchors(ctx)
    killers = {f.qual for f in an["killers"]}
    n = 0

    # ---- the manager routine
    for f in an["manager"]:
        cl = "on_cleanup" if "on_cleanup" in f.params else None
        if not ctx.ob("cleanup-always", f"{f.name} takes a clean-up", cl, ctx.where(f)):
            continue

        def label(ev, st):
            if ev.kind == "call" and (ev.name == cl or ev.base == P(cl) or ev.callee == cl or getattr(ev, "extra", None) == P(cl)):
                return [("+", "clean")]
            return None

        def dec(a, st):
            return False if a[0] == "cmp" and P(cl) in (a[2], a[3]) and NONE in (a[2], a[3]) else True if a == ("t", P(cl)) else None
        res = ctx.engine(Flags(dec, label=label, raises=failing(p, "manager_main", "_dump_on_abort", "trim_H", "on_abort"), inline=lambda g: g.module.name == M and g.name not in ("_dump_on_abort",), havoc=False)).run(f)
        for how, st in [("return", s) for s, _ in res["return"]] + [(exc_of(s), s) for s in res["raise"]]:
            n += 1
            ctx.ob("cleanup-always", f"{f.name} ends with {how}", "clean" in (st.rs or ()), ctx.where(f), f"the workers are not cleaned up when the run ends with {how}")

    # ---- ending the workers one by one
    for f in an["killers"]:
        loop = loops_over_param(f)
        L = P(loop.iter.id)

        def own(t):
            return t is not None and t[0] == "elem" and strip_arr(t[1]) == L

        def label(ev, st):
            if ev.kind == "iter" and ev.extra is not None and strip_arr(ev.extra) == L:
                return [("-", lambda x: x in ("ended", "stopped")), ("+", "in")]
            if ev.kind == "iterend" and ev.extra is not None and strip_arr(ev.extra) == L:
                nonlocal n
                n += 1
                fl = st.rs or ()
                ctx.ob("each-worker", f"{f.name}: one worker's turn", "ended" in fl, ev.where(), "a worker may be left running when its turn is over")
                if ev.name == "break":
                    ctx.ob("each-worker", f"{f.name}: the loop goes on", False, ev.where(), "the remaining workers are not ended")
                return [("-", lambda x: x in ("in", "timeout"))]
            if own(ev.base):
                if ev.kind == "callret" and ev.name in ("result", "terminate"):
                    return [("+", "ended")]
                if ev.kind == "call" and ev.name == "result":
                    t = ev.kw.get("timeout", ev.args[0] if ev.args else NONE)
                    ctx.ob("each-worker", f"{f.name}: waits for a limited time", t != NONE, ev.where(), "waits for a worker without a limit")
                if ev.kind == "call" and ev.name == "send" and ev.args and ev.args[0] == K(p, "STOP_TAG"):
                    return [("+", "stopped")]
                if ev.kind == "call" and ev.name == "terminate":
                    ctx.ob("each-worker", f"{f.name}: stop before terminating", "stopped" in (st.rs or ()), ev.where(), "a worker thread cannot be terminated and was not told to stop")
            if ev.kind == "caught" and ev.name and "RemoteException" in str(ev.name):
                return [("+", "ended")]
            return None

        def raises(ev, st):
            return [COMMS + "Timeout", COMMS + "RemoteException"] if ev.name == "result" and own(ev.base) else False
        res = ctx.engine(Flags(label=label, raises=raises, inline=lambda g: g.module.name == M, havoc=False)).run(f)
        for st in res["raise"]:
            ctx.ob("each-worker", f"{f.name} raises", "in" not in (st.rs or ()), ctx.where(f), f"{exc_of(st)} from one worker leaves the others running")
        ctx.ob("each-worker", f"{f.name} returns", res["return"], ctx.where(f))

    # ---- starting a team
    def killed(ev):
        return ev.args[0] if ev.kind == "call" and ev.callee in killers and ev.args else ev.kw.get(next(iter(p.funcs[ev.callee].params))) if ev.kind == "call" and ev.callee in killers else None

    for f, kind in [(f, "local") for f in an["team"]] + [(f, "tcp") for f in an["launch"]]:
        launch = [x for x in f.params if "launch" in x]

        def started(ev):
            """The thing a call has just started."""
            if ev.kind != "callret":
                return None
            if kind == "local":
                return ev.base if ev.name in ("run", "start") and ev.base is not None and ev.base[0] in ("elem", "i", "new", "call") and not ev.args else None
            return P("@launched") if launch and ev.name is None and ev.callee is None and ev.base is None or ev.name == "launch" else None

        def is_release(ev):
            return ev.args[0] if ev.name == "cancel" and ev.args and ev.args[0][0] == "elem" else ev.base if ev.name in ("cancel", "terminate") and ev.base is not None and ev.base[0] == "elem" else None

        def label(ev, st):
            out = []
            w = started(ev)
            if w is not None:
                out.append(("+", ("run", nosite(w))))
            if ev.kind == "mutate" and ev.name == "append" and ev.args:
                x = nosite(ev.args[0])
                if ("run", x) in (st.rs or ()):
                    out += [("-", lambda g: g == ("run", x)), ("+", ("listed", ev.base))]
                elif kind == "tcp" and any(g[0] == "run" for g in st.rs or ()):
                    out += [("-", lambda g: g[0] == "run"), ("+", ("listed", ev.base))]
            k = killed(ev)
            if k is not None:
                out.append(("-", lambda g: g == ("listed", k) or g[0] == "run" and g[1][0] == "elem" and g[1][1] == k))
            r = release_labels(ev, None, is_release, killers)
            if r:
                out += r
            if ev.kind == "iterend" and ev.extra is not None:
                if ("hit", ev.extra) not in (st.rs or ()) or ev.name == "break":
                    out.append(("-", lambda g: g == ("rel", ev.extra)))
            if ev.kind == "loopend" and ("rel", ev.extra) in (st.rs or ()):
                out.append(("-", lambda g: g in (("listed", ev.extra), ("rel", ev.extra), ("hit", ev.extra))))
            return out

        def raises(ev, st):
            if kind == "local":
                return ["Exception"] if ev.name in ("run", "start") and ev.base is not None else False
            return ["Exception"] if ev.extra in [P(x) for x in launch] or ev.name in ("launch", "await_workers") else False
        res = ctx.engine(Flags(label=label, raises=raises, inline=lambda g: g.module.name == M and g.qual not in killers, havoc=False)).run(f)
        for st in res["raise"]:
            n += 1
            left = [g for g in st.rs or () if g[0] in ("run", "listed")]
            ctx.ob("partial-team", f"{f.name} fails", not left, ctx.where(f), "workers already started keep running when starting the team fails")
        ctx.ob("partial-team", f"{f.name} can fail", res["raise"], ctx.where(f), "a failed start is hidden")
        ctx.ob("partial-team", f"{f.name} returns", res["return"], ctx.where(f))

    # ---- the main routines: from starting to handing over
    managers = {f.qual for f in an["manager"]}
    starters = {f.qual: "local" for f in an["team"]}
    starters.update({f.qual: "tcp" for f in an["launch"]})
    helpers = managers | set(starters) | killers
    handed = {}
    mains = [f for f in p.funcs.values() if f.module.name == M and f.parent is None and f.qual not in helpers
             and any(g.qual in managers or g.qual in starters for g in callees(p, f))]
    ctx.floor("main routines", len(mains), 3)

    def owned(v, kind):
        """The list of workers in what a starter returns."""
        return lambda t: t is not None and (strip_arr(t) == v or t[0] == "i" and t[1] == v)
    for f in mains:
        def label(ev, st):
            out = []
            if ev.kind == "callret" and ev.callee in starters:
                out.append(("+", ("team", ev.callee)))
            if ev.kind == "bind" and ev.value is not None:
                pass
            if ev.kind == "call" and ev.callee in killers:
                out.append(("-", lambda g: g[0] == "team" and starters[g[1]] == "local"))
            if ev.kind == "call" and ev.callee in managers:
                a = args_of(ev, p.funcs[ev.callee])
                cl = a.get("on_cleanup")
                out.append(("-", lambda g: g[0] in ("team", "log")))
                out.append(("+", ("handed",)))
                handed.setdefault((f.qual, ev.line), (f, ev.where(), cl, frozenset(g for g in st.rs or () if g[0] in ("team", "log"))))
            return out

        def raises(ev, st):
            if quiet(ev) or ev.callee in killers or ev.name in ("cancel",):
                return False
            return ["Exception"] if ev.callee in p.funcs or ev.callee in p.classes or ev.name in ("set_resource_manager",) else False
        res = ctx.engine(Flags(label=label, raises=raises, inline=lambda g: g.parent is not None and g.module.name == M, havoc=False)).run(f)
        for how, st in [("return", s) for s, _ in res["return"]] + [("an error", s) for s in res["raise"]]:
            n += 1
            left = sorted(g[1].split(":")[-1] for g in st.rs or () if g[0] == "team")
            ctx.ob("hand-over", f"{f.name} ends with {how}", not left, ctx.where(f), f"what {left} started is neither released nor handed to the manager routine")

    # ---- the clean-up handed over
    for (q, line), (f, where, cl, held) in sorted(handed.items()):
        name = f.name
        g = None
        if cl is not None and cl[0] in ("closure", "fn", "lambda"):
            g = p.funcs.get(cl[1])
        if g is None:
            for h in p.funcs.values():
                if h.parent is f and cl is not None and h.name in show(cl):
                    g = h
        if not ctx.ob("hand-over", f"{name} hands over a clean-up", cl is not None and cl != NONE, where, "the manager routine gets no clean-up"):
            continue
        if g is None:
            ctx.assumption(f"{name}: the clean-up handed over is {show(cl)[:60]}, which the analysis does not resolve")
            continue
        kinds = {starters[h.qual] for h in callees(p, f) if h.qual in starters}
        logs = has_call(f, "manager_logging_config") or any(has_call(h, "manager_logging_config") for h in callees(p, f) if h.qual not in helpers)
        vars_ = {}
        for a in ast.walk(f.node):      # which variables hold the team and the log's closing routine
            if isinstance(a, ast.Assign) and isinstance(a.value, ast.Call):
                for t in a.targets:
                    for k, v in enumerate(t.elts if isinstance(t, ast.Tuple) else [t]):
                        if isinstance(v, ast.Name):
                            m = method_name(a.value)
                            if any(m == x.split(":")[-1] for x in starters) and k == 0:
                                vars_["team"] = v.id
                            elif m == "manager_logging_config":
                                vars_["log"] = v.id
        for present in (True, False):
            def is_var(t, w):
                return t is not None and vars_.get(w) is not None and vars_[w] in show(t).replace("(", " ").replace(")", " ").replace(".", " ").split()

            def dec(a, st):
                if mentions(a, lambda x: False):
                    return None
                t = a[1] if a[0] == "t" else a
                if t[0] == "cmp" and NONE in (t[2], t[3]) and is_var(t, "log"):
                    return not present
                if is_var(t, "log"):
                    return present
                return None

            def is_release(ev):
                return ev.args[0] if ev.name == "cancel" and ev.args else None

            def label(ev, st):
                out = []
                if ev.kind == "call" and ev.callee in killers and ev.args and is_var(ev.args[0], "team"):
                    out.append(("+", "team"))
                if ev.kind == "call" and (is_var(ev.base, "log") and ev.name in (None, "__call__") or ev.name == vars_.get("log") or str(ev.callee).split(".")[-1] == vars_.get("log")):
                    out.append(("+", "log"))
                r = release_labels(ev, None, is_release, killers)
                out += r or []
                if ev.kind == "iterend" and ev.extra is not None and (("hit", ev.extra) not in (st.rs or ()) or ev.name == "break"):
                    out.append(("-", lambda x: x == ("rel", ev.extra)))
                if ev.kind == "loopend" and ("rel", ev.extra) in (st.rs or ()) and is_var(ev.extra, "team"):
                    out.append(("+", "team"))
                return out

            def raises(ev, st):
                return ["Exception"] if ev.callee in killers else False
            res = ctx.engine(Flags(dec, label=label, raises=raises, inline=lambda h: h.module.name == M and h.qual not in killers, havoc=False)).run(g)
            for how, st in [("return", s) for s, _ in res["return"]] + [("an error", s) for s in res["raise"]]:
                n += 1
                fl = st.rs or ()
                if kinds:
                    ctx.ob("cleanup-complete", f"{name} team", "team" in fl, ctx.where(g), f"the clean-up ends with {how} and does not end the workers")
                if present and logs:
                    ctx.ob("cleanup-complete", f"{name} log", "log" in fl, ctx.where(g), f"the clean-up ends with {how} and leaves the log open")
    ctx.floor("handed-over clean-ups", len(handed), 3)

    # ---- scoped resources
    srv = p.classes.get(LIB + "comms.tcp_mgr:ServerQCommManager")
    scoped = [f for f in p.funcs.values() if f.module.name == M and f.cls is None and (any(isinstance(x, ast.With) for x in ast.walk(f.node)) or has_call(f, "Dup", "ServerQCommManager")) and f.qual not in helpers]
    found = set()
    for f in scoped:
        def label(ev, st):
            if ev.kind == "callret" and ev.name == "Dup":
                return [("+", ("communicator",))]
            if ev.kind == "call" and ev.name in ("Free", "Disconnect"):
                return [("-", lambda g: g == ("communicator",))]
            if ev.kind == "callret" and ev.name == "start" and ev.base is not None and "ServerQueueManager" in show(ev.base) or ev.kind == "callret" and ev.name == "start" and ev.func is not None and srv is not None and ev.func.cls is srv:
                return [("+", ("server",))]
            if ev.kind == "call" and ev.name == "shutdown":
                return [("-", lambda g: g == ("server",))]
            return None

        def raises(ev, st):
            return False if quiet(ev) or ev.name in ("Free", "shutdown", "Dup") else ["Exception"] if ev.callee in p.funcs or ev.callee in p.classes or ev.name in ("allgather", "await_workers") else False
        sc = {x.qual for x in p.classes.values() if p.method(x, "__exit__") is not None}
        got = set()

        def lab(ev, st):
            r = label(ev, st)
            if r and r[0][0] == "+":
                got.add(r[0][1][0])
            return r
        res = ctx.engine(Flags(label=lab, raises=raises, inline=lambda g: g.cls is not None and g.cls.qual in sc and g.name in ("__init__", "__enter__", "__exit__", "shutdown", "close") and g.cls.name != "Timer", havoc=False)).run(f)
        for how, st in [("return", s) for s, _ in res["return"]] + [("an error", s) for s in res["raise"]]:
            for x in sorted(got):
                n += 1
                ctx.ob("scoped", f"{f.name} {x}", (x,) not in (st.rs or ()), ctx.where(f), f"the {x} is left open when {f.name} ends with {how}")
        found |= got
    if not {"communicator", "server"} <= found:
        ctx.assumption(f"only {sorted(found)} are found to be started within one function")
    ctx.floor("exits", n, 60)
