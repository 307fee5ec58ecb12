"""Worker loop, framing, calculation handling (C03, C04, W01-W03)."""
import ast
import itertools

from . import check
from .common import *  # noqa
from .comms import Sim, exc_of, isinst, vararg

WK = LIB + "worker:Worker"
MG = LIB + "manager:Manager"
PS = LIB + "tools.persistent_support:PersistentSupport"
WORK, TAG, ROWS, OUT, PINFO = P("@work"), P("@tag"), P("@rows"), P("@out"), P("@pinfo")
INFO = I(WORK, C("libE_info"))
COMM = A(SELF, "comm")


def key_decide(known):
    """Valuation of `key in d`, `d[key]` truth and lengths for named keys: known[key] = value (True/False/int) or None when absent."""
    def d(atom, st=None):
        if atom[0] == "cmp" and atom[1] == "in" and is_strc(atom[2]) and atom[2][2] in known:
            return known[atom[2][2]] is not None
        x = atom[1] if atom[0] == "t" else None
        if x is not None and x[0] == "i" and is_strc(x[2]) and x[2][2] in known:
            return bool(known[x[2][2]])
        if x is not None and callname(x) in (".get", ".pop") and len(x[2]) > 1 and is_strc(x[2][1]) and x[2][1][2] in known:
            return bool(known[x[2][1][2]])
        if atom[0] == "cmp":
            def leaf(t):
                if t[0] in ("len",) and t[1][0] == "i" and is_strc(t[1][2]) and isinstance(known.get(t[1][2][2]), int):
                    return int(known[t[1][2][2]])
                if callname(t) in ("numpy.size", "len") and t[2] and t[2][0][0] == "i" and is_strc(t[2][0][2]) and isinstance(known.get(t[2][0][2][2]), int):
                    return int(known[t[2][0][2][2]])
                if t[0] == "i" and is_strc(t[2]) and t[2][2] in known and not isinstance(known[t[2][2]], int):
                    return known[t[2][2]]
                return NOVAL
            try:
                return bool(rowval(atom, leaf))
            except (Unk, TypeError):
                return None
    return d


def worker_types(p):
    return {COMM: {LIB + "comms.comms:QComm"}}


class LoopSim(Sim):
    """Worker.run with every message scripted; st.rs = labels of the open iteration; outcomes of closed iterations in .iters."""

    def __init__(self, script, **kw):
        super().__init__(**kw)
        self.script, self.iters, self.maxreads = script, [], 0

    def reads(self, st):
        return sum(1 for x in st.rs or () if x[0] == "read")

    def call_value(self, ev, st, eng):
        if ev.kind == "call" and ev.name == "recv" and ev.base == COMM:
            n = self.reads(st) - 1
            return self.script(n)
        return self.c(ev, st) if self.c else None

    def on_event(self, ev, st, eng):
        if ev.kind == "iter" and ev.func is not None and ev.func.name == "run" and len(eng.func_stack) == 1:
            st.rs = ()
            return
        if ev.kind == "iterend" and ev.func is not None and ev.func.name == "run" and len(eng.func_stack) == 1:
            self.iters.append((ev.name, st.rs or (), dict(st.facts)))
            st.rs = ()
            return
        if ev.kind == "callret" and ev.name == "recv" and ev.base == COMM:
            st.rs = (st.rs or ()) + (("read",),) if len(st.rs or ()) < 20 else st.rs
            return
        super().on_event(ev, st, eng)


def worker_loop(ctx, tag, work, known, status=None, fails=False, hname="_handle_calc"):
    """One scripted kind of message handled by the worker loop.
    -> (iterations [(how it ended, labels)], exits [(how, labels after the loop)], rule)"""
    p = ctx.p
    f = p.meth(WK, "run")
    kd = key_decide(known)

    def script(n):
        return ("tuple", (tag if is_c(tag) else tag, work)) if n <= 0 else ("tuple", (C(0), ROWS))

    def d(atom, st):
        r = isinst(atom)
        if r and r[0] == WORK:
            return "dict" in r[1] or "builtins.dict" in r[1]
        if r and r[0] == work and is_c(work):
            return "dict" not in r[1]
        r = kd(atom)
        if r is not None:
            return r
        if atom == ("t", WORK) or atom == ("t", INFO):
            return True
        if atom == mk_cmp("==", WORK, NONE):
            return False
        if atom[0] == "cmp" and atom[1] == "==" and WORK in atom[2:4] and (is_c(atom[2]) or is_c(atom[3])):
            return False

    def lab(ev, st):
        if ev.kind == "call" and ev.name == hname:
            return ("handle", tuple(ev.args))
        if ev.kind == "callret" and ev.name == "send" and ev.base == COMM:
            return ("send",) + tuple(describe(x, st) for x in ev.args)
        if ev.kind in ("store", "del") and ev.loc is not None and ev.loc[0] == "i" and is_strc(ev.loc[2]) and ev.loc[2][2] in ("comm", "executor"):
            return (ev.kind, ev.loc[2][2], ev.loc[1] == INFO)
        if ev.kind == "mutate" and ev.name == "pop" and ev.args and is_strc(ev.args[0]) and ev.args[0][2] in ("comm", "executor"):
            return ("del", ev.args[0][2], ev.base == INFO)
        if ev.kind == "callret" and ev.name in ("shutdown", "copy_back", "kill_pending") and ev.base is not None:
            return (ev.name, ev.base[2] if ev.base[0] == "a" else show(ev.base))
        if ev.kind == "store" and ev.loc[0] == "a" and ev.loc[2] == "comm" and "Executor" in show(ev.loc[1]):
            return ("detach", ev.value == NONE)
    rule = LoopSim(script, decide=d, label=lab,
                   raises=lambda ev, st: (([fails] if isinstance(fails, str) else True) if fails and ev.name == hname else False),
                   result=lambda ev, st: None if ev.name != hname else ([] if fails else (("tuple", (OUT, PINFO, status)) if status is not None else None)),
                   inline=lambda g: g.name not in (hname, "_set_rset_team", "copy_back", "shutdown", "kill_pending", "send", "recv", "_set_executor", "_set_resources"))
    rule.relevant = lambda a: True
    # tag of the order inside the dict equals the message tag
    vals = {I(WORK, C("tag")): tag}
    rule.v = lambda t: vals.get(t)
    res = ctx.engine(rule, types=worker_types(p)).run(f)
    exits = [("return", st.rs or (), st) for st, _ in res["return"]] + [("raise " + str(exc_of(st)), st.rs or (), st) for st in res["raise"]]
    return rule.iters, exits, rule


def describe(a, st):
    if a[0] == "new" and a[2].startswith("obj:"):
        return ("obj", a[2].split(":")[-1], tuple(sorted((l[2], v) for l, v in st.heap.items() if l[0] == "a" and l[1] == a)))
    if a[0] == "new" and a[2] == "dict":
        return ("dict", a, tuple(sorted(((l[2][2], v) for l, v in st.heap.items() if l[0] == "i" and l[1] == a and is_strc(l[2])), key=lambda x: x[0])))
    return a


def calc_handler(p):
    """The Worker method that looks up and runs the user function's runner (and logs)."""
    hs = [f for f in p.classes[WK].methods.values() if f.name != "__init__" and any(isinstance(n, ast.Attribute) and n.attr == "runners" and isinstance(n.ctx, ast.Load) for n in ast.walk(f.node))]
    if len(hs) == 1:
        return hs[0]
    return p.meth(WK, "_handle_calc")


def scenarios(p):
    """Every kind of message the manager can send to a worker (or that strays to it): (name, tag, work, known keys, status, fails, expected)."""
    k = lambda n: K(p, n)
    ST, PS_, FIN, KILL = k("STOP_TAG"), k("PERSIS_STOP"), k("MAN_SIGNAL_FINISH"), k("MAN_SIGNAL_KILL")
    base = {"libE_info": True, "active_recv": None, "persistent": None, "comm": True, "executor": True}
    out = []
    for t, tn in ((ST, "STOP"), (PS_, "PERSIS_STOP")):
        out.append((f"{tn} with finish", t, FIN, {}, None, False, ("leave", 1, 0, 0)))
        out.append((f"{tn} with kill", t, KILL, {}, None, False, ("stay", 1, 0, 0)))
    for rows in (0, 2):
        out.append((f"PERSIS_STOP with final work, rows={rows}", PS_, WORK, dict(base, persistent=True, H_rows=rows), None, False, ("stay", 1 + bool(rows), 0, 0)))
        for tag in (k("EVAL_SIM_TAG"), k("EVAL_GEN_TAG")):
            for act, per in ((None, None), (None, True), (True, True), (True, None), (False, None)):
                kn = dict(base, active_recv=act, persistent=per, H_rows=rows)
                nm = f"tag {tag[2]} rows={rows} active_recv={act} persistent={per}"
                if act and not per:
                    out.append((nm, tag, WORK, kn, k("WORKER_DONE"), False, ("stay", 1 + bool(rows), 0, 0)))
                else:
                    for status in (k("WORKER_DONE"), k("UNSET_TAG"), k("MAN_SIGNAL_KILL"), k("FINISHED_PERSISTENT_GEN_TAG"), C("any text")):
                        out.append((nm + f" status={status[2]}", tag, WORK, kn, status, False, ("stay", 1 + bool(rows), 1, 1)))
                    out.append((nm + " finish learned", tag, WORK, kn, FIN, False, ("leave", 1 + bool(rows), 1, 0)))
                    out.append((nm + " raises", tag, WORK, kn, None, True, ("error", 1 + bool(rows), 1, 0)))
                    out.append((nm + " calls sys.exit", tag, WORK, kn, None, "SystemExit", ("error", 1 + bool(rows), 1, 0)))
    out.append(("neither a dict nor a signal", C(0), C("text"), {}, None, False, ("error", 1, 0, 0)))
    out.append(("unknown signal", ST, C(99), {}, None, False, ("error", 1, 0, 0)))
    return out


def episodes(iters, exits):
    """(how, labels of the iteration, labels after) for every explored iteration."""
    out = []
    for n, rs, _ in iters:
        out.append(("stay" if n == "next" else "leave", rs))
    for how, rs, st in exits:
        if any(x[0] == "read" for x in rs):
            err = [i for i, x in enumerate(rs) if x[0] == "send" and any(isinstance(y, tuple) and y[0] == "obj" and y[1] == "WorkerErrMsg" for y in x[1:])]
            out.append(("error" if err or how != "return" else "leave", rs))
    return out


def run_scenarios(ctx):
    """All scenarios, analysed once per source tree."""
    h = calc_handler(ctx.p).name
    cache = ctx.p.__dict__.setdefault("_worker_scenarios", None)
    if cache is None:
        cache = []
        for nm, tag, work, kn, status, fails, exp in scenarios(ctx.p):
            iters, exits, rule = worker_loop(ctx, tag, work, kn, status, fails, h)
            cache.append((nm, tag, work, status, exp, episodes(iters, exits), exits))
        ctx.p._worker_scenarios = cache
    return cache


@check("W01", "exhaustive message table for the worker loop: every kind of message (orders, stops, strays) by every end of the calculation, path-sensitive through all helpers")
def w01(ctx):
    p = ctx.p
    ctx.rule("loop-table", "for each kind of message every path through the loop body ends as required: stay in the loop, leave it, or report an error")
    ctx.rule("one-reply", "a work order that is run is answered exactly once, with the results of exactly this order; discarded and stop messages are not answered")
    ctx.rule("run-once", "the calculation runs exactly once per work order, on the order and its rows, and never for a message that is not an order for this worker")
    ctx.rule("error-reported", "any error in the loop is reported to the manager exactly once, with text and traceback, and pending sends are not cancelled afterwards")
    f = p.meth(WK, "run")
    n = 0
    for nm, tag, work, status, (how, reads, handled, replies), eps, exits in run_scenarios(ctx):
        ctx.ob("loop-table", nm, bool(eps), ctx.where(f), "no path handles this message")
        for got, rs in eps:
            n += 1
            ctx.ob("loop-table", nm, got == how, ctx.where(f), f"the worker would {got}, it should {how}")
            hs = [x for x in rs if x[0] == "handle"]
            ctx.ob("run-once", nm, len(hs) == handled, ctx.where(f), f"the calculation runs {len(hs)} times")
            for x in hs:
                rows = reads == 2
                a = x[1]
                ok = a[:1] == (WORK,) and (len(a) < 2 or (contains(a[1], ROWS) if rows else not contains(a[1], ROWS)))
                ctx.ob("run-once", nm + " input", ok, ctx.where(f), f"the calculation gets {[show(y) for y in a]}")
            snd = [x for x in rs if x[0] == "send"]
            if how != "error":
                ctx.ob("one-reply", nm, len(snd) == replies, ctx.where(f), f"{len(snd)} replies are sent")
                for x in snd:
                    fs = dict(x[2][2]) if len(x) > 2 and isinstance(x[2], tuple) and x[2][0] == "dict" and len(x[2]) == 3 else None
                    if fs is None:
                        ctx.assumption(f"the reply {x[2:]} is not a plain dictionary")
                        continue
                    want = {"calc_out": OUT, "persis_info": PINFO, "calc_status": status, "calc_type": tag, "libE_info": INFO}
                    for key, v in want.items():
                        if key == "libE_info" and key in fs and fs[key] != v:
                            ctx.assumption(f"the reply's libE_info is {show(fs[key])}")
                            continue
                        ctx.ob("one-reply", f"reply {key}", key in fs and fs[key] == v or v[0] == "p" and key in fs and fs[key] == v, ctx.where(f), f"{key} is {show(fs[key]) if key in fs else 'missing'}")
            else:
                ctx.ob("error-reported", nm, len(snd) == 1, ctx.where(f), f"{len(snd)} messages are sent after an error")
                for x in snd:
                    o = next((y for y in x[1:] if isinstance(y, tuple) and y[0] == "obj"), None)
                    fs = dict(o[2]) if o else {}
                    ok = o is not None and o[1] == "WorkerErrMsg" and any(y[0] == "excval" for y in subterms(fs.get("msg", NONE))) and "format_exc" in str(fs.get("exc"))
                    ctx.ob("error-reported", nm + " content", ok, ctx.where(f), "the error message lacks the text or the traceback")
                i = next((i for i, x in enumerate(rs) if x[0] == "send"), 0)
                ctx.ob("error-reported", nm + " delivered", not any(x[0] == "kill_pending" for x in rs[i:]), ctx.where(f), "the error message may be cancelled before it is delivered")
    ctx.floor("loop episodes", n, 60)


@check("W02", "last-write analysis of the communicator and executor keys at every send, ownership (copy before edit) of the persistent function's libE_info")
def w02(ctx):
    p = ctx.p
    ctx.rule("no-local-objects", "whatever was put under 'comm' or 'executor' has been removed again when the reply is sent, on every path")
    ctx.rule("own-info", "sending from a persistent function changes neither the function's own libE_info nor anything but a copy of it, and the copy holds no communicator or executor")
    ctx.rule("available", "the calculation finds the worker's communicator and executor in its libE_info")
    f = p.meth(WK, "run")
    n = 0
    for nm, tag, work, status, (how, reads, handled, replies), eps, exits in run_scenarios(ctx):
        for got, rs in eps:
            at = None
            for i, x in enumerate(rs):
                if x[0] == "handle":
                    at = i
                    for key in ("comm", "executor"):
                        last = [y for y in rs[:i] if y[0] in ("store", "del") and y[1] == key and y[2]]
                        ctx.ob("available", key, bool(last) and last[-1][0] == "store", ctx.where(f), f"{key} is not in libE_info when the calculation starts")
                if x[0] == "send" and len(x) > 2 and isinstance(x[2], tuple) and x[2][0] == "dict" and len(x[2]) == 3 and dict(x[2][2]).get("libE_info") == INFO:
                    n += 1
                    for key in ("comm", "executor"):
                        last = [y for y in rs[:i] if y[0] in ("store", "del") and y[1] == key and y[2]]
                        ctx.ob("no-local-objects", f"reply {key}", not last or last[-1][0] == "del", ctx.where(f), f"the reply carries the {key}")
    if n == 0:
        ctx.assumption("the reply's libE_info is rebuilt; its keys are not decided")
    # ---- persistent functions
    fs = p.meth(PS, "send")
    OWN = A(SELF, "libE_info")
    comm = A(SELF, "comm")
    for have in (True, False):
        def label(ev, st):
            if ev.kind in ("store", "del", "mutate"):
                l = ev.loc if ev.kind != "mutate" else ev.base
                b = l[1] if ev.kind != "mutate" and l is not None and l[0] == "i" else l
                key = l[2] if ev.kind != "mutate" and l is not None and l[0] == "i" else (ev.args[0] if ev.kind == "mutate" and ev.args else None)
                if b == OWN and ev.kind != "mutate" and l[0] == "a":
                    return ("rebind",)
                if b is not None and key is not None and is_strc(key):
                    kind = "del" if ev.kind == "del" or ev.kind == "mutate" and ev.name == "pop" else "store"
                    return (kind, key[2], b)
                if b == OWN:
                    return ("store", "?", b)
            if ev.kind == "callret" and ev.name == "send" and ev.base == comm:
                return ("send", describe(ev.args[1], st) if len(ev.args) > 1 else None, ev.args[0] if ev.args else None,
                        tuple(sorted(x[2][2] for x in st.heap if x[0] == "i" and is_strc(x[2]) and len(ev.args) > 1 and x[1] == st.heap.get(I(ev.args[1], C("libE_info"))))))
        kd = key_decide({"comm": True if have else None, "executor": True if have else None})
        res = ctx.engine(Sim(lambda a, st: kd(a) if a[0] == "cmp" and a[1] == "in" and a[3] == OWN else None, label=label)).run(fs)
        for st, _ in res["return"]:
            rs = st.rs or ()
            snd = [x for x in rs if x[0] == "send"]
            con = f"communicator in libE_info={have}"
            ctx.ob("own-info", con + " one message", len(snd) == 1, ctx.where(fs), f"{len(snd)} messages are sent")
            own = [x for x in rs if x[0] == "rebind" or x[0] in ("store", "del") and len(x) > 2 and x[2] == OWN and (have or x[1] in ("comm", "executor", "?"))]
            ctx.ob("own-info", con, not own, ctx.where(fs), f"the function's own libE_info is changed ({own[0][:2] if own else ''})")
            if not snd or not (isinstance(snd[0][1], tuple) and snd[0][1][0] == "dict"):
                ctx.assumption("PersistentSupport.send: the message is not a plain dictionary")
                continue
            fs_ = dict(snd[0][1][2])
            info = fs_.get("libE_info")
            ctx.ob("own-info", con + " info sent", info is not None, ctx.where(fs), "no libE_info is sent")
            if have and info is not None:
                ctx.ob("own-info", con + " copy", info != OWN, ctx.where(fs), "the function's own libE_info, with its communicator, is sent")
                gone = {x[1] for x in rs if x[0] == "del" and x[2] == info}
                if info[0] == "new" or callname(info) in ("dict", "copy.copy", ".copy", "copy.deepcopy"):
                    ctx.ob("own-info", con + " removed", {"comm", "executor"} <= gone, ctx.where(fs), f"only {sorted(gone)} are removed from the copy that is sent")
            for key, v in (("calc_out", P(fs.params[1])), ("calc_status", P("calc_status")), ("calc_type", A(SELF, "calc_type"))):
                ctx.ob("own-info", f"message {key}", fs_.get(key) == v, ctx.where(fs), f"{key} is {show(fs_[key]) if key in fs_ else 'missing'}")
            ctx.ob("own-info", "message keep_state", any(x[0] == "store" and x[1] == "keep_state" and x[2] == info for x in rs) or info is not None and info[0] != "new" and callname(info) is None and not have, ctx.where(fs), "keep_state is not sent")


def status_strings(p):
    m = p.module(LIB + "message_numbers")
    n = m.assigns.get("calc_status_strings")
    if n is None:
        raise AnalysisBroken("message_numbers.calc_status_strings is gone")
    try:
        d = p.const(m, n)
        return d if isinstance(d, dict) else None
    except Exception:
        return None


@check("W03", "truth table of the calculation handler over every shape of a user function's return value, every buffered signal and raising, with the logged text followed through helpers")
def w03(ctx):
    p = ctx.p
    ctx.rule("logged-once", "every path, returning or raising, writes exactly one statistics line for the calculation")
    ctx.rule("status-logged", "the line holds the description of the calculation's final status (or the user's own text), and the exception description when the user function raised")
    ctx.rule("status-returned", "the output, persistent info and status given by the user function are the ones handed on; what is not given is filled with the order's persistent info and the not-set status")
    ctx.rule("raise-through", "an exception of the user function leaves the handler as it is")
    ctx.rule("finish-kept", "a finish signal found while the calculation ran either becomes the status (the worker then leaves) or is kept for the worker loop")
    f = calc_handler(p)
    desc = status_strings(p)
    k = lambda n: K(p, n)
    UNSET, FIN, KILL, EXC = k("UNSET_TAG"), k("MAN_SIGNAL_FINISH"), k("MAN_SIGNAL_KILL"), k("CALC_EXCEPTION")
    buf = A(COMM, "recv_buffer")
    WPI = I(WORK, C("persis_info"))
    ARR, ROW = P("@array"), None
    shapes = [("nothing", NONE, (NONE, WPI, None)), ("an array", ARR, (ARR, WPI, None))]
    for s in (k("WORKER_DONE"), k("TASK_FAILED"), C("own text"), k("FINISHED_PERSISTENT_GEN_TAG"), k("WORKER_KILL"), UNSET):
        shapes += [(f"(out, status {s[2]})", ("tuple", (OUT, s)), (OUT, WPI, s)),
                   (f"(out, persis_info, status {s[2]})", ("tuple", (OUT, PINFO, s)), (OUT, PINFO, s))]
    shapes += [("(out, persis_info)", ("tuple", (OUT, PINFO)), (OUT, PINFO, None)), ("raises", None, None), ("calls sys.exit", None, None)]
    RAISES = {"raises": "ValueError", "calls sys.exit": "SystemExit"}
    wparam = P(f.params[1])
    n = 0
    for name, val, want in shapes:
        for sig in (None, (k("STOP_TAG"), FIN), (k("PERSIS_STOP"), KILL), (k("STOP_TAG"), KILL)):
            for ln in ((1, 2, 3) if name == "an array" else (1,)):
                con = f"{name}{'' if name != 'an array' else f' of {ln} rows'}, signal {'none' if sig is None else (sig[0][2], sig[1][2])}"

                def d(atom, st):
                    if atom in (("t", buf), ) or atom == mk_cmp("==", buf, NONE):
                        v = sig is not None
                        return v if atom[0] == "t" else not v
                    if atom[0] == "t" and callname(atom[1]) == ".mail_flag":
                        return sig is not None
                    r = isinst(atom)
                    if r:
                        subj, cl = r
                        cl = {x.split(".")[-1].split(":")[-1] for x in cl}
                        if subj == ARR:
                            return "ndarray" in cl
                        if subj[0] in ("tuple", "clist") or subj == NONE:
                            return bool(cl & ({"tuple", "list"} if subj[0] == "tuple" else set()))
                        if subj in (OUT, PINFO):
                            return bool(cl & ({"ndarray"} if subj == OUT else {"dict"}))
                        if is_c(subj):
                            return subj[1] in cl
                        if subj[0] == "i" and subj[1] == ARR:
                            return bool(cl & {"void"})
                    if atom == mk_cmp("==", ARR, NONE) or atom == mk_cmp("==", OUT, NONE):
                        return False
                    if atom[0] == "cmp" and any(x == ("len", ARR) for x in subterms(atom)):
                        try:
                            return bool(rowval(atom, lambda t: ln if t == ("len", ARR) else NOVAL))
                        except Unk:
                            return None
                    if atom[0] == "cmp" and atom[1] == "in" and is_strc(atom[2]) and atom[2][2] in ("task_timing", "task_datetime", "show_resource_sets"):
                        return False

                def iscalc(ev):
                    return ev.extra is not None and ev.base is None and any(x[0] == "a" and x[2] in ("runners",) for x in subterms(ev.extra))

                def lab(ev, st):
                    if ev.kind == "call" and iscalc(ev):
                        return ("calc", tuple(ev.args))
                    if ev.kind == "callret" and ev.name in ("info", "log", "warning", "debug") and ev.base is not None and contains_attr(ev.base, "stats_name"):
                        return ("log", ev.args[0] if ev.args else NONE)
                    if ev.kind == "callret" and ev.name == "push_to_buffer" and ev.base == COMM:
                        return ("keep", tuple(ev.args))
                    if ev.kind == "callret" and ev.name == "recv" and ev.base == COMM:
                        return ("recv",)
                rule = Sim(d, raises=lambda ev, st: ([RAISES[name]] if name in RAISES and iscalc(ev) else False), label=lab, limit=30,
                           result=lambda ev, st: ([] if name in RAISES else val) if iscalc(ev) else (("tuple", sig) if ev.name == "recv" and ev.base == COMM and sig else None),
                           inline=lambda g: g.name not in ("use_calc_dirs", "prep_calc_dir", "new_tasks_timing", "extract_H_ranges", "recv", "push_to_buffer", "_extract_debug_data", "rjust"))
                res = ctx.engine(rule, types=worker_types(p)).run(f, args={f.params[1]: WORK})
                ends = [("return", st, t) for st, t in res["return"]] + [("raise", st, None) for st in res["raise"]]
                ctx.ob("logged-once", con, bool(ends), ctx.where(f), "the handler never ends")
                for how, st, t in ends:
                    n += 1
                    rs = st.rs or ()
                    ctx.ob("raise-through", con, (how == "raise") == (name in RAISES) and (how != "raise" or exc_of(st) == RAISES[name]), ctx.where(f), f"the handler ends with {how} {exc_of(st) if how == 'raise' else ''}")
                    logs = [x for x in rs if x[0] == "log"]
                    ctx.ob("logged-once", con, len(logs) == 1, ctx.where(f), f"{len(logs)} statistics lines are written")
                    calc = [x for x in rs if x[0] == "calc"]
                    ctx.ob("status-returned", con + " input", len(calc) == 1 and (not calc or calc[0][1] == (P(f.params[2]), WORK)), ctx.where(f), "the user function does not run once on the order and its rows")
                    if name in RAISES:
                        final = EXC
                    else:
                        if t[0] not in ("tuple", "list", "clist") or len(t[1]) != 3:
                            ctx.ob("status-returned", con, not (t[0] in ("tuple", "list", "clist") or t == NONE) and not is_c(t), ctx.where(f), f"the handler returns {show(t)}")
                            if not is_c(t) and t[0] not in ("tuple", "list", "clist"):
                                ctx.assumption(f"the handler's result {show(t)[:80]} is not understood")
                            continue
                        o, pi, final = t[1]
                        given = want[2]
                        dflt = FIN if sig is not None and sig[1] == FIN else UNSET
                        ctx.ob("status-returned", con + " output", o == want[0], ctx.where(f), f"the output handed on is {show(o)}")
                        ctx.ob("status-returned", con + " persis_info", pi == want[1], ctx.where(f), f"the persistent info handed on is {show(pi)}")
                        ctx.ob("status-returned", con + " status", final == (given if given is not None else dflt), ctx.where(f), f"the status handed on is {show(final)}")
                        if sig is not None and sig[1] == FIN and final != FIN:
                            ctx.ob("finish-kept", con, any(x[0] == "keep" and x[1] == sig for x in rs) or not any(x[0] == "recv" for x in rs), ctx.where(f), "the finish signal is read and lost")
                    if logs and is_c(final):
                        text = desc.get(final[2], final[2]) if desc is not None else None
                        msg = logs[0][1]
                        if text is not None:
                            ok = any(is_c(x) and x[2] == text for x in subterms(msg)) or any(is_strc(x) and str(text) in x[2] for x in subterms(msg))
                            other = [x[2] for x in subterms(msg) if is_strc(x) and desc and x[2] in desc.values()] if not ok else []
                            und = not ok and not other and any(x[0] in ("unk", "phi") for x in subterms(msg))
                            if und:
                                ctx.assumption("the statistics line's status is not understood on some path")
                            ctx.ob("status-logged", con, ok or und, ctx.where(f), f"the line shows {other or 'no status'} instead of {text!r}")
    ctx.floor("handler paths", n, 40)


def contains_attr(t, name):
    return any(x[0] == "a" and x[2] == name or x[0] == "g" and x[1].endswith("." + name) for x in subterms(t))
