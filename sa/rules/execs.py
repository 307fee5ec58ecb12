"""Executor and tasks (E01, E02, E04)."""
import ast

from . import check
from .common import *  # noqa
from .comms import Sim, exc_of

EX = LIB + "executors.executor"
TASK, EXEC = EX + ":Task", EX + ":Executor"
LA = LIB + "utils.launcher"
PROC = P("@process")
SUB_TIMEOUT = "subprocess.TimeoutExpired"
ENDS = ("FINISHED", "USER_KILLED", "FAILED", "FAILED_TO_START")
STATES = ("UNKNOWN", "CREATED", "WAITING", "RUNNING") + ENDS


def atr(n, b=SELF):
    return A(b, n)


def task_heap(state, proc=PROC, dry=False, self_=SELF):
    fin = state in ENDS
    code = {"FINISHED": C(0), "FAILED": C(5)}.get(state, NONE)
    h = {"state": C(state), "finished": C(fin), "success": C(state == "FINISHED"), "errcode": code, "process": proc, "dry_run": C(dry)}
    return {atr(k, self_): v for k, v in h.items()}


def after(st, self_=SELF):
    return tuple(st.heap.get(atr(k, self_)) for k in ("state", "finished", "success", "errcode"))


def want(state, code=NONE):
    return (C(state), C(state in ENDS), C(state == "FINISHED"), code)


def task_run(ctx, f, heap, polled, args=None, expires=False):
    """Run a Task method; process.poll() gives polled, process.wait() ends with it unless it expires."""
    p = ctx.p
    rc = C(polled) if polled is not None else NONE

    def raises(ev, st):
        if ev.base == PROC and ev.name == "wait" and expires:
            t = ev.kw.get("timeout", ev.args[0] if ev.args else NONE)
            return [SUB_TIMEOUT] if t != NONE else False
        return False

    def result(ev, st):
        if ev.base == PROC and ev.name == "poll":
            return rc
        if ev.base == PROC and ev.name == "wait":
            t = ev.kw.get("timeout", ev.args[0] if ev.args else NONE)
            return [] if polled is None or expires and t != NONE else rc
        if ev.callee == LA + ":cancel":
            return P("@code")

    def label(ev, st):
        if ev.kind == "callret" and ev.callee == LA + ":cancel":
            a = args_of(ev, p.funcs[LA + ":cancel"])
            return ("cancel", a.get("process"), a.get("timeout", C(0)))
        if ev.kind == "callret" and ev.base == PROC and ev.name in ("kill", "terminate", "send_signal"):
            return ("signal", ev.name)
        if ev.kind == "call" and ev.base == PROC and ev.name == "wait":
            return ("wait", ev.kw.get("timeout", ev.args[0] if ev.args else NONE))

    def d(atom, st):
        x = atom[1] if atom[0] == "t" else None
        if x == PROC:
            return True
        if atom[0] == "cmp" and atom[1] == "==" and PROC in atom[2:4] and NONE in atom[2:4]:
            return False

    def val(t):
        if t[0] == "a" and t[1] == PROC and t[2] == "returncode":
            return rc
    inl = lambda g: g.cls is not None and g.cls.qual == TASK or g.cls is None and g.module.name == EX or g.module.name == LA and g.name != "cancel"
    return ctx.engine(Sim(d, raises=raises, result=result, label=label, inline=inl, value=val, havoc=False)).run(f, args=args, heap=heap)


@check("E01", "exhaustive transition table of every task method over (state, process outcome, timeout, dry run); enumeration of every other writer of a task's status")
def e01(ctx):
    p = ctx.p
    ctx.rule("transition", "from every state and process outcome each method leaves the task in the documented state, finished exactly in end states, successful exactly with exit code zero")
    ctx.rule("ended-stays", "a finished task is not changed by any method and is not signalled")
    ctx.rule("timeout", "an expired wait raises the timeout error and leaves the task unfinished and running; the caller's timeout is the one used")
    ctx.rule("answers", "result, exception, running, done and cancelled report the state after the poll or wait")
    ctx.rule("kill-once", "killing a running task signals it once with the caller's grace period and marks it killed; a task found ended is not signalled")
    ctx.rule("unlaunched", "a task without a process is not polled, waited for or killed as if it had one")
    ctx.rule("states", "every state assigned anywhere is a documented one, and end states assigned outside the task's methods go with finished")
    m = p.module(EX)
    vals = {}
    for name in ("STATES", "END_STATES"):
        node = m.assigns.get(name)
        s = None
        for x in ast.walk(node) if node is not None else ():
            if isinstance(x, ast.Constant) and isinstance(x.value, str):
                s = (s or []) + x.value.split()
        vals[name] = s or []
    ctx.ob("states", "documented states", set(STATES) == set(vals["STATES"]), m.path, f"states are {vals['STATES']}")
    ctx.ob("states", "end states", set(ENDS) == set(vals["END_STATES"]), m.path, f"end states are {vals['END_STATES']}")
    n = 0
    live = ("CREATED", "WAITING", "RUNNING")
    T = P("@timeout")
    f = {k: p.meth(TASK, k) for k in ("poll", "wait", "result", "exception", "running", "done", "cancelled", "kill", "cancel")}

    def end(rc):
        return want("FINISHED", C(0)) if rc == 0 else want("FAILED", C(rc))

    def tv(f):
        return P(next((x for x in f.params if x == "timeout"), f.params[-1]))

    for name, g in f.items():
        wh = ctx.where(g)
        waits = name in ("wait", "result", "exception")
        for pre in live:
            for rc in (None, 0, 5):
                for given in ((True, False) if waits else (None,)):
                    if waits and rc is None and not given:
                        continue     # waits for ever
                    con = f"{name} {pre} process {'runs' if rc is None else rc}" + ("" if given is None else f" timeout={given}")
                    args = {tv(g)[1]: T if given else NONE} if waits else ({"wait_time": P("@grace")} if name == "kill" else None)
                    res = task_run(ctx, g, task_heap(pre), rc, args, expires=rc is None and waits)
                    n += len(res["return"]) + len(res["raise"])
                    if waits and rc is None:
                        ctx.ob("timeout", con, not res["return"] and bool(res["raise"]), wh, "an expired wait returns normally")
                        for st in res["raise"]:
                            ctx.ob("timeout", con + " error", str(exc_of(st)).split(":")[-1].split(".")[-1] == "TimeoutExpired" and not str(exc_of(st)).startswith("subprocess"), wh, f"raises {exc_of(st)}")
                            a = after(st)
                            ctx.ob("timeout", con + " state", a[0] in (C(pre), C("RUNNING")) and a[1:] == want(pre)[1:], wh, f"the task is left {[show(x) for x in a]}")
                            ctx.ob("timeout", con + " not killed", not any(x[0] in ("cancel", "signal") for x in st.rs or ()), wh, "the task is signalled")
                        continue
                    ctx.ob("transition", con, bool(res["return"]) and not res["raise"], wh, "fails on some path" if res["raise"] else "never returns")
                    for st, t in res["return"]:
                        rs = st.rs or ()
                        a = after(st)
                        killed = [x for x in rs if x[0] == "cancel"]
                        for x in rs:
                            if x[0] == "wait":
                                ctx.ob("timeout", con + " passed", x[1] == (T if given else NONE), wh, f"waits with timeout {show(x[1])}")
                        if rc is not None:
                            exp = end(rc)
                        elif name in ("kill", "cancel"):
                            exp = want("USER_KILLED")
                        else:
                            exp = want("RUNNING")
                        ctx.ob("transition", con, a == exp, wh, f"the task is left (state, finished, success, errcode) = {[show(x) if x else '?' for x in a]}")
                        if name in ("kill", "cancel"):
                            grace = P("@grace") if name == "kill" else NONE
                            ctx.ob("kill-once", con, killed == ([("cancel", PROC, grace)] if rc is None else []), wh, f"signalled: {[tuple(map(show, x[1:])) for x in killed]}")
                        else:
                            ctx.ob("kill-once", con, not killed and not any(x[0] == "signal" for x in rs), wh, "the task is signalled")
                        ret = {"result": exp[0], "exception": exp[3], "running": C(exp[0] == C("RUNNING")), "done": exp[1], "cancelled": FALSE}.get(name)
                        if ret is not None:
                            ctx.ob("answers", con, t == ret, wh, f"returns {show(t)}")
        for pre in ENDS:
            proc = NONE if pre == "FAILED_TO_START" else PROC
            con = f"{name} {pre}"
            res = task_run(ctx, g, task_heap(pre, proc), {"FINISHED": 0, "FAILED": 5}.get(pre, -15), {"wait_time": P("@grace")} if name == "kill" else None)
            h0 = task_heap(pre, proc)
            ctx.ob("ended-stays", con, bool(res["return"]) and not res["raise"], wh, "fails for an ended task" if res["raise"] else "never returns")
            for st, t in res["return"]:
                n += 1
                ctx.ob("ended-stays", con, all(st.heap.get(k) == v for k, v in h0.items()), wh, f"the task becomes {[show(x) if x else '?' for x in after(st)]}")
                ctx.ob("ended-stays", con + " quiet", not any(x[0] in ("cancel", "signal") for x in st.rs or ()), wh, "an ended task is signalled")
                ret = {"result": C(pre), "exception": h0[atr("errcode")], "running": FALSE, "done": TRUE, "cancelled": C(pre == "USER_KILLED")}.get(name)
                if ret is not None:
                    ctx.ob("answers", con, t == ret, wh, f"returns {show(t)}")
        # ---- dry run, not launched
        res = task_run(ctx, g, task_heap("CREATED", NONE, dry=True), None)
        for st, t in res["return"]:
            n += 1
            a = after(st)
            ctx.ob("transition", f"{name} dry run", a[:3] == want("FINISHED")[:3], wh, f"a dry-run task is left {[show(x) if x else '?' for x in a]}")
        ctx.ob("transition", f"{name} dry run ends", bool(res["return"]) and not res["raise"], wh, "a dry-run task fails")
        res = task_run(ctx, g, task_heap("CREATED", NONE), None)
        ctx.ob("unlaunched", name, not res["return"], wh, "a task that was not launched is treated as launched")
        for st in res["raise"]:
            n += 1
            ctx.ob("unlaunched", name + " state", after(st) == want("CREATED"), wh, "a task that was not launched changes its state")
    ctx.floor("paths of task methods", n, 100)
    # ---- creation and reset
    g = p.meth(TASK, "reset")
    res = task_run(ctx, g, task_heap("FAILED"), None)
    for st, _ in res["return"]:
        ctx.ob("transition", "reset", after(st) == want("CREATED") and st.heap.get(atr("process")) == NONE, ctx.where(g), f"reset leaves {[show(x) if x else '?' for x in after(st)]}")
    g = p.meth(TASK, "__init__")
    res = ctx.engine(Sim(inline=lambda h: h.cls is not None and h.cls.qual == TASK)).run(g)
    for st, _ in res["return"]:
        ctx.ob("transition", "new task", after(st) == want("CREATED") and st.heap.get(atr("process")) == NONE, ctx.where(g), f"a new task is {[show(x) if x else '?' for x in after(st)]}")
    # ---- other writers
    w = 0
    for mod in p.modules.values():
        if not mod.name.startswith(LIB + "executors") and not mod.name.startswith(LIB + "utils.launcher"):
            continue
        for node in ast.walk(mod.tree):
            tg = node.targets if isinstance(node, ast.Assign) else ([node.target] if isinstance(node, ast.AnnAssign) and node.value is not None else [])
            for t in tg:
                if isinstance(t, ast.Attribute) and t.attr == "state":
                    fn = enclosing_func(p, mod, node)
                    for c in ast.walk(node.value):
                        if isinstance(c, ast.Constant) and isinstance(c.value, str):
                            w += 1
                            ctx.ob("states", f"{fn.qual if fn else mod.name}: {c.value}", c.value in STATES, f"{mod.path}:{node.lineno}", f"{c.value} is not a documented state")
                            if fn is not None and (fn.cls is None or fn.cls.qual != TASK):
                                blk = next((b for x in ast.walk(fn.node) for b in (getattr(x, "body", None), getattr(x, "orelse", None), getattr(x, "finalbody", None)) if isinstance(b, list) and node in b), [])
                                fin = any(isinstance(s, ast.Assign) and any(isinstance(y, ast.Attribute) and y.attr == "finished" for y in s.targets) and isinstance(s.value, ast.Constant) and s.value.value is True for s in blk)
                                if c.value in ENDS:
                                    ctx.ob("states", f"{fn.qual}: {c.value} finished", fin, f"{mod.path}:{node.lineno}", "an end state is assigned without marking the task finished")
    ctx.floor("assigned states", w, 5)


# ---------------------------------------------------------------------------------------------- E02
def _sig(x):
    n = show(x)
    return "KILL" if n.endswith("SIGKILL") or x == C(9) else ("TERM" if n.endswith("SIGTERM") or x == C(15) else n)


@check("E02", "exhaustive table of the cancel helpers over (grace period, group leader, reaction of the child, failing signal) and of the polling loop over (task outcome, manager signal, timeout)")
def e02(ctx):
    p = ctx.p
    ctx.rule("escalation", "with grace: terminate, wait the grace period, then hard kill; zero grace: hard kill only; no limit: terminate and wait; a child that ended is not hard-killed")
    ctx.rule("group", "signals go to the child's process group exactly when the child leads it, and to the child alone otherwise")
    ctx.rule("reaped", "the child has been waited for when cancel returns")
    ctx.rule("kill-call", "killing through the executor or the task reaches the cancel helper with that task's process and grace period, once")
    ctx.rule("polling-loop", "the loop kills its task once when it times out or a kill signal arrives while it runs, and returns the status that matches; it polls between sleeps until the task has ended")
    f = p.funcs.get(LA + ":cancel")
    if f is None:
        raise AnalysisBroken("launcher.cancel is gone")
    n = 0
    PID = A(PROC, "pid")
    for grace in (C(0), C(5), NONE):
        for leader in (True, False):
            for groups in (True, False):
                for ends in (True, False):
                    if grace == NONE and not ends:
                        continue
                    for fails in (False, True):
                        con = f"grace={show(grace)} leader={leader} groups={groups} child {'ends' if ends else 'stays'}{' signal fails' if fails else ''}"
                        dead = lambda st: any(x == ("dead",) for x in st.rs or ())

                        def issig(ev):
                            return ev.base == PROC and ev.name in ("terminate", "kill", "send_signal") or ev.callee in ("os.killpg", "os.kill")

                        def raises(ev, st):
                            if fails and issig(ev):
                                return ["ProcessLookupError"]
                            if ev.base == PROC and ev.name == "wait":
                                t = ev.kw.get("timeout", ev.args[0] if ev.args else NONE)
                                if t != NONE and not ends:
                                    return [SUB_TIMEOUT]
                            return False

                        def result(ev, st):
                            if issig(ev) and fails:
                                return []
                            if ev.base == PROC and ev.name == "wait":
                                t = ev.kw.get("timeout", ev.args[0] if ev.args else NONE)
                                return [] if t != NONE and not ends else C(-15)
                            if ev.base == PROC and ev.name == "poll":
                                return C(-15) if ends else NONE
                            if ev.callee == "os.getpgid":
                                return PID if leader else P("@group")
                            if ev.name == "hasattr":
                                return C(groups)

                        def label(ev, st):
                            if ev.kind == "call" and ev.base == PROC and ev.name in ("terminate", "kill"):
                                return ("sig", "KILL" if ev.name == "kill" else "TERM", "child")
                            if ev.kind == "call" and ev.base == PROC and ev.name == "send_signal":
                                return ("sig", _sig(ev.args[0]), "child")
                            if ev.kind == "call" and ev.callee in ("os.killpg", "os.kill"):
                                return ("sig", _sig(ev.args[1]) if len(ev.args) > 1 else "?", ("group" if ev.callee == "os.killpg" else "child") if ev.args[0] in (PID, P("@group")) else "other")
                            if ev.kind == "call" and ev.base == PROC and ev.name == "wait":
                                return ("wait", ev.kw.get("timeout", ev.args[0] if ev.args else NONE))

                        def d(atom, st):
                            if atom[0] == "t" and callname(atom[1]) == "hasattr":
                                return groups
                            if atom[0] == "cmp" and atom[1] == "==" and PID in atom[2:4]:
                                o = atom[3] if atom[2] == PID else atom[2]
                                return o == PID
                        res = ctx.engine(Sim(d, raises=raises, result=result, label=label, inline=lambda g: g.module.name == LA)).run(f, args={f.params[0]: PROC, f.params[1]: grace})
                        ctx.ob("reaped", con + " returns", bool(res["return"]) and not res["raise"], ctx.where(f), "cancel fails" if res["raise"] else "cancel never returns")
                        for st, _ in res["return"]:
                            n += 1
                            rs = st.rs or ()
                            sigs = [x[1] for x in rs if x[0] == "sig"]
                            exp = (["TERM"] if grace != C(0) else []) + (["KILL"] if not ends else [])
                            ctx.ob("escalation", con, sigs == exp, ctx.where(f), f"signals sent: {sigs}")
                            whom = "group" if leader and groups else "child"
                            for x in rs:
                                if x[0] == "sig":
                                    ctx.ob("group", con, x[2] == whom, ctx.where(f), f"{x[1]} goes to the {x[2]}")
                            waits = [(i, x[1]) for i, x in enumerate(rs) if x[0] == "wait"]
                            ctx.ob("reaped", con, bool(waits) and (ends or waits[-1][1] == NONE), ctx.where(f), "the child is not waited for")
                            if "TERM" in sigs:
                                i = rs.index(next(x for x in rs if x[0] == "sig" and x[1] == "TERM"))
                                w = next((x for x in waits if x[0] > i), None)
                                ctx.ob("escalation", con + " grace", w is not None and w[1] == grace, ctx.where(f), f"waits {show(w[1]) if w else 'nothing'} after the termination signal")
                            if not ends and "KILL" in sigs:
                                j = max(i for i, x in enumerate(rs) if x[0] == "sig")
                                ctx.ob("reaped", con + " after the kill", any(i > j for i, _ in waits), ctx.where(f), "the killed child is not waited for")
    ctx.floor("cancel paths", n, 30)
    # ---- kill of a task
    g = p.meth(TASK, "kill")
    W = P("@grace")
    res = task_run(ctx, g, task_heap("RUNNING"), None, {g.params[1]: W})
    for st, _ in res["return"]:
        k = [x for x in st.rs or () if x[0] == "cancel"]
        ctx.ob("kill-call", "task", k == [("cancel", PROC, W)], ctx.where(g), f"kill signals {[tuple(map(show, x[1:])) for x in k]}")
        ctx.ob("kill-call", "state", after(st) == want("USER_KILLED"), ctx.where(g), "the killed task is not marked killed")
    for pre in ENDS:
        res = task_run(ctx, g, task_heap(pre, NONE if pre == "FAILED_TO_START" else PROC), {"FINISHED": 0, "FAILED": 5}.get(pre, -15), {g.params[1]: W})
        ctx.ob("kill-call", f"{pre} task", bool(res["return"]) and not res["raise"] and not any(x[0] in ("cancel", "signal") for st, _ in res["return"] for x in st.rs or ()), ctx.where(g), "killing an ended task does something")
    c = p.meth(TASK, "cancel")
    res = ctx.engine(Sim(label=lambda ev, st: ("kill", tuple(sorted(args_of(ev, g).items()))) if ev.kind == "callret" and ev.name == "kill" and ev.base == SELF else None, inline=lambda h: h is not g)).run(c)
    for st, _ in res["return"]:
        ctx.ob("kill-call", "cancel", [dict(x[1]).get(g.params[1]) for x in st.rs or ()] == [NONE], ctx.where(c), "cancel does not kill without a limit")
    k = p.meth(EXEC, "kill")
    t = P(k.params[1])
    subs = [k] + [p.methods[q] for q in () if q]
    for cls in [x for x in p.classes.values() if p.cls(EXEC) in p.mro(x)]:
        kk = p.method(cls, "kill")

        def d(atom, st):
            if atom[0] == "t" and callname(atom[1]) == "isinstance":
                return True
            if atom == ("t", t):
                return True
        res = ctx.engine(Sim(d, label=lambda ev, st: ("kill", ev.base, ev.kw.get("wait_time", ev.args[0] if ev.args else None)) if ev.kind == "callret" and ev.name == "kill" else None, inline=lambda h: h is not g)).run(kk, cls=cls)
        for st, _ in res["return"]:
            ctx.ob("kill-call", f"{cls.name}.kill", list(st.rs or ()) == [("kill", t, A(SELF, "wait_time"))], ctx.where(kk), f"kill does {[tuple(map(show, x[1:])) for x in st.rs or ()]}")
    # ---- polling loop
    lp = p.meth(EXEC, "polling_loop")
    kc = lambda n_: K(p, n_)
    TK, TO = P(lp.params[1]), P("@limit")
    STAT = {"FINISHED": kc("WORKER_DONE"), "FAILED": kc("TASK_FAILED"), "FAILED_TO_START": kc("TASK_FAILED_TO_START")}
    m = 0
    for first in ("RUNNING", "FINISHED", "FAILED"):
        for pm in (True, False):
            for sig in (NONE, kc("MAN_SIGNAL_KILL"), kc("MAN_SIGNAL_FINISH"), C(77)):
                if not pm and sig != NONE:
                    continue
                for limit in (None, "left", "over"):
                    con = f"task {first} poll_manager={pm} signal={show(sig)} limit={limit}"

                    def state(st):
                        k = 0
                        for x in st.rs or ():
                            if x[0] == "kill":
                                return "USER_KILLED" if s == "RUNNING" else s
                            if x[0] == "poll":
                                k += 1
                                s = first if k == 1 else "FINISHED"
                        return s if k else "RUNNING"

                    class Loop(Sim):
                        def value(self, term, st, eng):
                            if term == A(TK, "finished"):
                                return C(state(st) in ENDS)
                            if term == A(TK, "state"):
                                return C(state(st))
                            if term == A(SELF, "manager_signal") and any(x[0] == "poll_manager" for x in st.rs or ()):
                                return sig

                    def result(ev, st):
                        if ev.name == "manager_poll" and ev.base == SELF:
                            return sig
                        if ev.name == "manager_kill_received" and ev.base == SELF:
                            return C(sig in (kc("MAN_SIGNAL_KILL"), kc("MAN_SIGNAL_FINISH")))
                        if ev.name in ("done", "running") and ev.base == TK:
                            return None

                    def label(ev, st):
                        if ev.kind == "callret" and ev.base == TK and ev.name in ("poll", "done", "running"):
                            return ("poll",)
                        if ev.kind == "callret" and (ev.base == TK and ev.name in ("kill", "cancel") or ev.base == SELF and ev.name == "kill"):
                            return ("kill",)
                        if ev.kind == "callret" and ev.base == SELF and ev.name in ("manager_poll", "manager_kill_received"):
                            return ("poll_manager",)
                        if ev.kind == "callret" and ev.name == "sleep":
                            return ("sleep", ev.args[0] if ev.args else None)

                    def d(atom, st):
                        if atom[0] == "cmp" and contains(atom, A(TK, "runtime")):
                            if limit is None:
                                return None
                            over = limit == "over"
                            return over if atom[2] == TO and atom[1] in ("<",) or atom[3] == TO and atom[1] in (">", ">=") else (not over if atom[1] in ("<", "<=") else over)
                        if atom[0] == "cmp" and atom[1] == "==" and TO in atom[2:4] and NONE in atom[2:4]:
                            return False
                        if atom == ("t", TO):
                            return True
                    res = ctx.engine(Loop(d, result=result, label=label, inline=lambda g: not (g.cls is not None and g.cls.qual == TASK) and g.name not in ("manager_poll", "manager_kill_received", "kill"), limit=12)).run(
                        lp, args={"timeout": TO if limit else NONE, "poll_manager": C(pm)})
                    ctx.ob("polling-loop", con + " ends", bool(res["return"]), ctx.where(lp), "the loop never returns")
                    for st, t_ in res["return"]:
                        m += 1
                        rs = st.rs or ()
                        kills = sum(1 for x in rs if x[0] == "kill")
                        killed = pm and sig in (kc("MAN_SIGNAL_KILL"), kc("MAN_SIGNAL_FINISH"))
                        ctx.ob("polling-loop", con + " manager", any(x[0] == "poll_manager" for x in rs) == pm or first != "RUNNING", ctx.where(lp), "the manager is not polled as asked")
                        if not pm:
                            ctx.ob("polling-loop", con + " manager off", not any(x[0] == "poll_manager" for x in rs), ctx.where(lp), "the manager is polled although not asked for")
                        for x in rs:
                            if x[0] == "sleep":
                                ctx.ob("polling-loop", con + " delay", x[1] == P("delay"), ctx.where(lp), f"sleeps {show(x[1]) if x[1] else '?'}")
                        if first == "RUNNING":
                            if killed:
                                ctx.ob("polling-loop", con, kills == 1 and t_ == sig, ctx.where(lp), f"kills {kills} times and returns {show(t_)}")
                            elif limit == "over":
                                ctx.ob("polling-loop", con, kills == 1 and t_ == kc("WORKER_KILL_ON_TIMEOUT"), ctx.where(lp), f"kills {kills} times and returns {show(t_)}")
                            else:
                                ctx.ob("polling-loop", con, kills == 0 and t_ == kc("WORKER_DONE"), ctx.where(lp), f"kills {kills} times and returns {show(t_)}")
                                ctx.ob("polling-loop", con + " sleeps", any(x[0] == "sleep" for x in rs), ctx.where(lp), "polls without a pause")
                        elif not killed and limit != "over":
                            ctx.ob("polling-loop", con, kills == 0 and t_ == STAT[first], ctx.where(lp), f"kills {kills} times and returns {show(t_)}")
    for pre in ("FAILED_TO_START", "FINISHED", "FAILED"):
        heap = {A(TK, "finished"): TRUE, A(TK, "state"): C(pre)}
        res = ctx.engine(Sim(label=lambda ev, st: ("kill",) if ev.kind == "callret" and ev.name in ("kill", "cancel") else None, inline=lambda g: not (g.cls is not None and g.cls.qual == TASK))).run(lp, heap=heap)
        for st, t_ in res["return"]:
            m += 1
            ctx.ob("polling-loop", f"{pre} before the loop", t_ == STAT[pre] and not st.rs, ctx.where(lp), f"returns {show(t_)}")
    ctx.floor("polling loop paths", m, 25)


# ---------------------------------------------------------------------------------------------- E04
@check("E04", "exhaustive table of the manager poll over every waiting message, and last-write analysis of the executor's communicator at every exit of the worker")
def e04(ctx):
    from .worker import run_scenarios
    p = ctx.p
    ctx.rule("not-lost", "a poll reads at most one message, and exactly the read message is pushed back, once")
    ctx.rule("reported", "a stop's signal is returned and kept as the manager signal; without a stop there is none")
    ctx.rule("kill-known", "only the recognised kill signals count as a kill")
    ctx.rule("detached", "the executor has no communicator when the worker ends, on any exit")
    k = lambda n: K(p, n)
    f = p.meth(EXEC, "manager_poll")
    COMM = A(SELF, "comm")
    msgs = [(k("STOP_TAG"), s) for s in (k("MAN_SIGNAL_FINISH"), k("MAN_SIGNAL_KILL"), C(77))] + [(k("PERSIS_STOP"), k("MAN_SIGNAL_KILL")), (k("PERSIS_STOP"), P("@work")), (k("EVAL_SIM_TAG"), P("@work")), (k("EVAL_GEN_TAG"), P("@work")), (C(0), P("@rows"))]
    n = 0
    for cls in [x for x in p.classes.values() if p.cls(EXEC) in p.mro(x)]:
        f = p.method(cls, "manager_poll")
        for mail, (tag, msg) in [(False, msgs[0])] + [(True, x) for x in msgs]:
            con = f"{cls.name} " + (f"message {show(tag)} {show(msg)}" if mail else "no message")

            def result(ev, st):
                if ev.base == COMM and ev.name == "mail_flag":
                    return C(mail)
                if ev.base == COMM and ev.name == "recv":
                    return ("tuple", (tag, msg)) if mail else []

            def label(ev, st):
                if ev.kind == "callret" and ev.base == COMM and ev.name in ("recv", "push_to_buffer", "send"):
                    return (ev.name,) + tuple(ev.args)
            res = ctx.engine(Sim(result=result, label=label)).run(f, cls=cls, heap={A(SELF, "manager_signal"): P("@old")})
            ctx.ob("reported", con, bool(res["return"]) and not res["raise"], ctx.where(f), "the poll fails" if res["raise"] else "the poll waits for a message")
            for st, t in res["return"]:
                n += 1
                rs = st.rs or ()
                got = [x for x in rs if x[0] == "recv"]
                back = [x[1:] for x in rs if x[0] == "push_to_buffer"]
                # one construct for messages that are read and dropped because they are no stop
                where = "messages other than a stop are read and dropped" if tag != k("STOP_TAG") and len(got) == 1 and not back else con
                ctx.ob("not-lost", where, len(got) <= mail and back == [(tag, msg)] * len(got), ctx.where(f), f"reads {len(got)} messages and pushes back {[tuple(map(show, x)) for x in back]}")
                stop = mail and tag == k("STOP_TAG")
                sig = st.heap.get(A(SELF, "manager_signal"))
                if stop:
                    ctx.ob("reported", con + " signal", t == msg and sig == msg, ctx.where(f), f"returns {show(t)}, the signal is {show(sig) if sig else '?'}")
                else:
                    ctx.ob("reported", con + " none", t == NONE and sig == NONE, ctx.where(f), f"returns {show(t)}, the signal is {show(sig) if sig else '?'}")
        g = p.method(cls, "manager_kill_received")
        for s in (NONE, k("MAN_SIGNAL_FINISH"), k("MAN_SIGNAL_KILL"), C(77)):
            def val(t):
                if t == A(SELF, "manager_signal"):
                    return s
            res = ctx.engine(Sim(result=lambda ev, st: s if ev.name == "manager_poll" else None, value=val, inline=lambda h: h.name != "manager_poll")).run(g, cls=cls)
            for st, t in res["return"]:
                n += 1
                ctx.ob("kill-known", f"{cls.name} signal {show(s)}", t == C(s in (k("MAN_SIGNAL_FINISH"), k("MAN_SIGNAL_KILL"))), ctx.where(g), f"returns {show(t)}")
    ctx.floor("poll paths", n, 20)
    seen = 0
    wf = p.meth(LIB + "worker:Worker", "run")
    for nm, tag, work, status, info, eps, exits in run_scenarios(ctx):
        for how, rs, st in exits:
            seen += 1
            none = mk_cmp("==", A(("cls", EXEC), "executor"), NONE)
            without = st.facts.get(none) is True or st.facts.get(("t", A(("cls", EXEC), "executor"))) is False
            ctx.ob("detached", nm, ("detach", True) in rs or without, ctx.where(wf), "the executor keeps the worker's communicator")
            if ("detach", True) in rs and any(x[0] == "send" for x in rs):
                ctx.ob("detached", nm + " after replies", max(i for i, x in enumerate(rs) if x == ("detach", True)) > max(i for i, x in enumerate(rs) if x[0] == "handle") if any(x[0] == "handle" for x in rs) else True, ctx.where(wf), "the communicator is taken away before the calculation")
    ctx.floor("worker exits", seen, 20)
