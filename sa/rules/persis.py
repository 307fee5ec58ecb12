"""Persistent user functions (P01, P02)."""
import ast

from . import check
from .common import *  # noqa
from .comms import Sim, exc_of, isinst
from .worker import PS, describe, key_decide

COMM = A(SELF, "comm")
WORK, ROWS, SIG = P("@work"), P("@rows"), P("@signal")
INFO = I(WORK, C("libE_info"))


@check("P01", "exhaustive table of a persistent function's receive over (blocking, mail waiting, first message, second message), field flow of the cancel request")
def p01(ctx):
    p = ctx.p
    ctx.rule("stop-seen", "a stop, in place of work or of rows, is returned with its own tag and no rows")
    ctx.rule("stop-kept", "a stop signal is pushed back, exactly once and unchanged, for the worker loop; nothing else is pushed back")
    ctx.rule("work-delivered", "a work order, also one that comes with a persistent stop, is returned with its tag and its rows, and its row numbers are noted in the function's libE_info")
    ctx.rule("reads", "one message is read, and a second one exactly when the order has rows; a non-blocking receive without mail reads nothing and returns nothing")
    ctx.rule("send-receive", "send_recv sends exactly the given output and returns what the receive returned")
    ctx.rule("cancel", "a cancel request sends exactly the given sim_ids marked cancel_requested, without changing the worker's state")
    k = lambda n: K(p, n)
    f = p.meth(PS, "recv")
    first = []
    for t in (k("STOP_TAG"), k("PERSIS_STOP")):
        for s in (k("MAN_SIGNAL_FINISH"), k("MAN_SIGNAL_KILL"), NONE):
            first.append((f"stop {t[2]} signal {s[2]}", t, s, 0))
    for t in (k("PERSIS_STOP"), k("EVAL_GEN_TAG"), k("EVAL_SIM_TAG"), k("STOP_TAG")):
        for rows in (0, 3):
            first.append((f"work tag {t[2]} rows={rows}", t, WORK, rows))
    second = [("rows", None, ROWS)] + [(f"stop {t[2]} signal {s[2]} in place of rows", t, s) for t in (k("STOP_TAG"), k("PERSIS_STOP")) for s in (k("MAN_SIGNAL_FINISH"), k("MAN_SIGNAL_KILL"))]
    n = 0
    bl = P(f.params[1]) if len(f.params) > 1 else P("blocking")
    for blocking in (True, False):
        for mail in (True, False):
            for name, tag, msg, rows in first:
                for name2, tag2, msg2 in second if msg == WORK and rows else second[:1]:
                    con = f"blocking={blocking} mail={mail} {name}" + (f", then {name2}" if msg == WORK and rows else "")

                    def d(atom, st):
                        r = isinst(atom)
                        if r and r[0] == WORK:
                            return bool({x.split(".")[-1] for x in r[1]} & {"dict", "builtins.dict", "Mapping"})
                        if r and r[0] == msg and is_c(msg):
                            return msg[1] in {x.split(".")[-1] for x in r[1]}
                        if r and r[0] == ROWS:
                            return "ndarray" in str(r[1])
                        x = atom[1] if atom[0] == "t" else None
                        if x is not None and callname(x) == ".mail_flag":
                            return mail
                        if x in (WORK, INFO):
                            return True
                        if atom[0] == "cmp" and atom[1] == "==" and NONE in atom[2:4] and (WORK in atom[2:4] or ROWS in atom[2:4]):
                            return False

                        def leaf(y):
                            if y[0] == "len" and contains(y[1], C("H_rows")):
                                return rows
                            if callname(y) in ("numpy.size", "len") and y[2] and contains(y[2][0], C("H_rows")):
                                return rows
                            if y[0] == "a" and y[2] == "size" and contains(y[1], C("H_rows")):
                                return rows
                            return NOVAL
                        if contains(atom[2] if atom[0] == "cmp" and len(atom) > 3 else atom, C("H_rows")) or x is not None and contains(x, C("H_rows")):
                            if x is not None and x[0] == "i" and x[2] == C("H_rows"):
                                return bool(rows)
                            try:
                                return bool(rowval(atom, leaf))
                            except (Unk, TypeError, IndexError):
                                return None

                    def result(ev, st):
                        if ev.name == "mail_flag":
                            return C(mail)
                        if ev.name == "recv" and ev.base == COMM:
                            i = sum(1 for x in st.rs or () if x[0] == "read")
                            if i <= 1:
                                return ("tuple", (tag, msg))
                            return ("tuple", (C(0) if tag2 is None else tag2, msg2))

                    def label(ev, st):
                        if ev.kind == "callret" and ev.name == "recv" and ev.base == COMM:
                            return ("read",)
                        if ev.kind == "callret" and ev.name == "push_to_buffer" and ev.base == COMM:
                            return ("keep", tuple(ev.args))
                    res = ctx.engine(Sim(d, result=result, label=label)).run(f, args={bl[1]: C(blocking)})
                    ctx.ob("reads", con, bool(res["return"]) and not res["raise"], ctx.where(f), "the receive fails on some path" if res["raise"] else "the receive never returns")
                    for st, t in res["return"]:
                        n += 1
                        rs = st.rs or ()
                        reads = sum(1 for x in rs if x[0] == "read")
                        keeps = [x[1] for x in rs if x[0] == "keep"]
                        if t[0] not in ("tuple", "list", "clist") or len(t[1]) != 3:
                            ctx.ob("stop-seen", con, False, ctx.where(f), f"the receive returns {show(t)[:60]}, not a tag, an order and rows")
                            continue
                        rt, rw, rr = t[1]
                        if not blocking and not mail:
                            ctx.ob("reads", con, reads == 0 and not keeps, ctx.where(f), f"{reads} messages are read without mail")
                            ctx.ob("reads", con + " nothing", (rt, rr) == (NONE, NONE), ctx.where(f), f"returns {show(t)} without mail")
                            continue
                        if msg != WORK:
                            ctx.ob("stop-seen", con, rt == tag and rr == NONE, ctx.where(f), f"the stop is returned as ({show(rt)}, .., {show(rr)})")
                            ctx.ob("stop-kept", con, keeps == [(tag, msg)], ctx.where(f), f"pushed back: {[tuple(map(show, x)) for x in keeps]}")
                            ctx.ob("reads", con, reads == 1, ctx.where(f), f"{reads} messages are read")
                            continue
                        ctx.ob("reads", con, reads == 1 + bool(rows), ctx.where(f), f"{reads} messages are read for an order with {rows} rows")
                        note = st.heap.get(I(A(SELF, "libE_info"), C("H_rows")))
                        ctx.ob("work-delivered", con + " row numbers", note is None or note == I(INFO, C("H_rows")), ctx.where(f), f"libE_info's H_rows becomes {show(note) if note else '?'}")
                        ctx.ob("work-delivered", con + " noted", note is not None, ctx.where(f), "the function's libE_info does not get the order's row numbers")
                        if rows and tag2 is not None:
                            ctx.ob("stop-seen", con, rt == tag2 and rr == NONE, ctx.where(f), f"the stop is returned as ({show(rt)}, .., {show(rr)})")
                            ctx.ob("stop-kept", con, keeps == [(tag2, msg2)], ctx.where(f), f"pushed back: {[tuple(map(show, x)) for x in keeps]}")
                        else:
                            ctx.ob("work-delivered", con, rt == tag and rw == WORK and rr == (ROWS if rows else NONE), ctx.where(f), f"the order is returned as ({show(rt)}, {show(rw)}, {show(rr)})")
                            ctx.ob("stop-kept", con, not keeps, ctx.where(f), "a work order is pushed back")
    ctx.floor("receive paths", n, 40)
    # ---- send_recv
    f2 = p.meth(PS, "send_recv")
    out = P(f2.params[1])

    def lab(ev, st):
        if ev.kind in ("callret",) and ev.name in ("send", "recv") and ev.base == SELF:
            g = p.meth(PS, ev.name)
            return (ev.name, tuple(sorted((a, v) for a, v in args_of(ev, g).items())))
    RES = P("@received")
    res = ctx.engine(Sim(result=lambda ev, st: RES if ev.name == "recv" else None, label=lab, inline=lambda g: g.name not in ("send", "recv"))).run(f2)
    for st, t in res["return"]:
        rs = st.rs or ()
        ctx.ob("send-receive", "order", [x[0] for x in rs] == ["send", "recv"], ctx.where(f2), f"calls {[x[0] for x in rs]}")
        for x in rs:
            a = dict(x[1])
            if x[0] == "send":
                ctx.ob("send-receive", "output", a.get(p.meth(PS, "send").params[1]) == out and a.get("calc_status", P("calc_status")) == P("calc_status"), ctx.where(f2), "another output or status is sent")
                ctx.ob("send-receive", "state", a.get("keep_state", FALSE) == FALSE, ctx.where(f2), "the worker's state is kept although it waits for work")
            else:
                ctx.ob("send-receive", "blocking", a.get("blocking", TRUE) == TRUE, ctx.where(f2), "the receive does not wait")
        ctx.ob("send-receive", "result", t == RES, ctx.where(f2), f"returns {show(t)[:60]}")
    ctx.ob("send-receive", "returns", bool(res["return"]), ctx.where(f2), "never returns")
    # ---- cancel
    f3 = p.meth(PS, "request_cancel_sim_ids")
    ids = P(f3.params[1])

    def lab(ev, st):
        if ev.kind == "callret" and ev.name == "send" and ev.base == SELF:
            a = args_of(ev, p.meth(PS, "send"))
            o = a.get(p.meth(PS, "send").params[1])
            return ("send", o, a.get("keep_state", FALSE))
        if ev.kind == "store" and ev.loc is not None and ev.loc[0] == "i" and is_strc(ev.loc[2]):
            return ("field", ev.loc[2][2], ev.loc[1], ev.value)
    res = ctx.engine(Sim(label=lab, inline=lambda g: g.name != "send")).run(f3)
    for st, t in res["return"]:
        rs = st.rs or ()
        snd = [x for x in rs if x[0] == "send"]
        ctx.ob("cancel", "one message", len(snd) == 1, ctx.where(f3), f"{len(snd)} messages are sent")
        for x in snd:
            ctx.ob("cancel", "keep state", x[2] == TRUE, ctx.where(f3), "the worker's state at the manager is changed")
            fl = {y[1]: y[3] for y in rs[:rs.index(x)] if y[0] == "field" and nosite(y[2]) == nosite(x[1])}
            ctx.ob("cancel", "sim_id", strip_arr(fl.get("sim_id", NONE)) == ids, ctx.where(f3), f"sim_id is {show(fl['sim_id']) if 'sim_id' in fl else 'not set'}")
            ctx.ob("cancel", "cancel_requested", fl.get("cancel_requested") == TRUE, ctx.where(f3), "the rows are not marked cancel_requested")
            ctx.ob("cancel", "only", set(fl) <= {"sim_id", "cancel_requested"}, ctx.where(f3), f"other fields are sent: {sorted(fl)}")
            sz = x[1][2][0] if callname(x[1]) in ("numpy.zeros", "numpy.ones", "numpy.empty", "numpy.full") and x[1][2] else None
            if sz is not None:
                ctx.ob("cancel", "all", contains(sz, ids), ctx.where(f3), f"the request has {show(sz)} rows")
    ctx.ob("cancel", "returns", bool(res["return"]), ctx.where(f3), "never returns")


# ---------------------------------------------------------------------------------------------- P02
RECVS = ("recv", "send_recv")
PKGS = ("gen_funcs.", "sim_funcs.", "gen_classes.", "utils.runners")
STOPPED = ("stopped",)


def _ps_funcs(p):
    """Functions that receive work through persistent support (nested functions included), and those that create it."""
    recv, make = [], []
    for f in p.funcs.values():
        if not any(f.module.name.startswith(LIB + x) for x in PKGS):
            continue
        body = [n for n in ast.walk(f.node) if isinstance(n, ast.Call)]
        own = [n for n in body if enclosing_func(p, f.module, n) is f]
        if any(isinstance(n.func, ast.Name) and n.func.id == PS.split(":")[-1] or isinstance(n.func, ast.Attribute) and n.func.attr == PS.split(":")[-1] for n in own):
            make.append(f)
        if any(isinstance(n.func, ast.Attribute) and n.func.attr in RECVS and ("ps" in ast.unparse(n.func.value).split(".") or "PersistentSupport" in ast.unparse(n.func.value)) for n in own):
            recv.append(f)
    return recv, make


def _nested(p, f):
    return any(g is not f and g.module is f.module and g.node.lineno < f.node.lineno and f.node.end_lineno <= g.node.end_lineno for g in p.funcs.values())


@check("P02", "typestate (working, stopped) of every shipped persistent function over both stop tags, with and without rows, at every receive; status table of its returns")
def p02(ctx):
    p = ctx.p
    ctx.rule("obeys-stop", "after a receive returned a stop tag, the function receives nothing more on any path")
    ctx.rule("survives-stop", "a stop without rows is not used as rows")
    ctx.rule("finish", "the function's last return value is the persistent-finished status of its own kind")
    ctx.rule("ends", "after a stop some path returns, and a callback of an optimizer that receives leaves it by an exception that is caught")
    k = lambda n: K(p, n)
    GEN, SIM = k("EVAL_GEN_TAG"), k("EVAL_SIM_TAG")
    FIN = {GEN: k("FINISHED_PERSISTENT_GEN_TAG"), SIM: k("FINISHED_PERSISTENT_SIM_TAG")}
    stops = (k("STOP_TAG"), k("PERSIS_STOP"))
    recv, make = _ps_funcs(p)
    ctx.floor("functions that receive work", len(recv), 18)
    ctx.floor("functions that open persistent support", len(make), 18)
    psfuncs = {f.qual for f in p.funcs.values() if f.cls is not None and f.cls.qual == PS}

    memo = {}

    def enters(g):
        if g.qual in psfuncs:
            return False
        if g.qual not in memo:
            near = lambda h: any(method_name(c) in RECVS + ("PersistentSupport",) for c in all_calls(h))
            memo[g.qual] = near(g) or reaches(p, g, near)
        return memo[g.qual]

    indirect = {}
    for f in recv:
        if f.cls is not None and not f.module.name.endswith("runners"):
            indirect.setdefault(f.module.name, set()).add(f.name)

    class Life(Sim):
        """st.rs: ("kind", calc type), ("stopped",) and what went wrong after it."""
        def value(self, term, st, eng):
            if term[0] in ("i", "a") and term[1] == NONE and STOPPED in (st.rs or ()) and not any(x[0] == "none" for x in st.rs):
                st.rs = st.rs + (("none", show(term)[:40]),)
            if self.indirect and term[0] == "i" and term[2] == C("tag"):
                return self.stop if STOPPED in (st.rs or ()) else P("@worktag")
            return None

    def run(f, cls, tag, rows):
        W, R, S = P("@work"), P("@rows"), P("@signal")
        late = set()
        given = (W, R, P("@stopwork"), P("@finalrows"))
        sig = ("tuple", (tag, P("@stopwork"), P("@finalrows"))) if rows else ("tuple", (tag, S, NONE))
        ind = indirect.get(f.module.name, ())

        def is_recv(ev):
            if ev.name not in RECVS:
                return False
            if ev.base is None:
                return f in nested and "ps" in str(ev.callee).split(".")
            return ev.callee in psfuncs or "PersistentSupport" in show(ev.base) or "ps" in show(ev.base).replace("?", "").split(".")

        def result(ev, st):
            if is_recv(ev) or ev.name in ind and ev.base is not None and ev.callee is None:
                if STOPPED in (st.rs or ()):
                    late.add(ev.where())
                    return []
            if is_recv(ev):
                out = [("tuple", (P("@worktag"), W, R)), ("alt", sig, STOPPED)]
                a = args_of(ev, p.meth(PS, ev.name)) if ev.callee in psfuncs else ev.kw
                if a.get("blocking", TRUE) != TRUE:
                    out.append(("tuple", (NONE, NONE, NONE)))
                return out
            if ev.name in ind and ev.base is not None and ev.callee is None:
                return [("alt", P("@ran"), STOPPED), P("@ran")]

        def raises(ev, st):
            return ["Exception"] if any(v[0] in ("fn", "closure") for v in ()) or ev.name in callbacks.get(f.qual, ()) else False

        def label(ev, st):
            rs = st.rs or ()
            if ev.kind in ("call", "callin", "callret") and ev.name == "PersistentSupport" and len(ev.args) > 1 and ("kind", ev.args[1]) not in rs:
                return ("kind", ev.args[1])
            if ev.kind == "iter" and ev.extra == NONE and STOPPED in rs and not any(x[0] == "none" for x in rs):
                return ("none", f"loop in {ev.where()}")

        def d(atom, st):
            x = atom[1] if atom[0] == "t" else None
            if x is not None and callname(x) == "hasattr" and x[2]:
                return False if x[2][0] == NONE else (True if x[2][0] in given else None)
            if atom[0] == "cmp" and atom[1] == "==":
                for a, b in (atom[2:4], atom[3:1:-1]):
                    if a == P("@worktag") and is_c(b):
                        return False
                    if b == NONE and a in given:
                        return False
            if x in given:
                return True
            return None
        return ctx.engine(Life(d, result=result, raises=raises, label=label, inline=enters, relevant=lambda a: False, limit=12, indirect=ind, stop=tag)).run(f, cls=cls), sorted(late)

    callbacks = {}
    nested = [f for f in recv if _nested(p, f)]
    for f in nested:
        outer = next(g for g in p.funcs.values() if g is not f and g.module is f.module and g.node.lineno < f.node.lineno and f.node.end_lineno <= g.node.end_lineno and g.cls is None)
        # the opaque calls an optimizer makes the callback through: methods of the object the callback was given to
        objs = {ast.unparse(c.func.value) for c in all_calls(outer) if isinstance(c.func, ast.Attribute) and any(isinstance(a, ast.Name) and a.id == f.name for a in list(c.args) + [x.value for x in c.keywords])}
        names = {c.func.attr for c in all_calls(outer) if isinstance(c.func, ast.Attribute) and ast.unparse(c.func.value) in objs and not c.func.attr.startswith("set_")}
        ctx.ob("ends", f"{f.qual} driver", bool(names), ctx.where(outer), "the optimizer call that drives the callback is not found")
        callbacks[outer.qual] = names
    called = {g.qual for f in p.funcs.values() if any(f.module.name.startswith(LIB + x) for x in PKGS) for g in callees(p, f) if g is not f}
    entries = []
    classes = {m: {f.cls.name for f in recv if f.cls is not None and f.module.name == m} for m in indirect}
    for f in p.funcs.values():
        if not any(f.module.name.startswith(LIB + x) for x in PKGS) or _nested(p, f):
            continue
        near = lambda h: h in make or h in recv or any(method_name(x) in classes.get(h.module.name, ()) for x in all_calls(h))
        if f.cls is None and f.qual not in called and (near(f) or reaches(p, f, near)) and not f.name.startswith("__"):
            entries.append((f, None))
    base = p.cls(LIB + "utils.runners:Runner")
    for c in p.classes.values():
        if base is c or base not in p.mro(c):
            continue
        m = p.method(c, "_persistent_result")
        if m is not None:
            entries.append((m, c))
    for f in recv:
        if f.cls is not None and not f.module.name.endswith("runners"):
            entries.append((f, f.cls))
    entries += [(f, None) for f in nested]
    covered = set()
    n = 0
    for f, c in entries:
        who = f.qual.split(":")[-1] if c is None else f"{c.name}.{f.name}"
        callback = f in nested or (c is not None and f.name in indirect.get(f.module.name, ()))
        for tag in stops:
            for rows in (False, True):
                con = f"{who} tag {tag[2]} rows={rows}"
                res, late = run(f, c, tag, rows)
                ctx.ob("obeys-stop", con, not late, late[0] if late else ctx.where(f), "receives again after a stop")
                done = [(st, t) for st, t in res["return"]]
                stopped = 0
                for st, t in done + [(s, None) for s in res["raise"]]:
                    rs = st.rs or ()
                    n += 1
                    for x in rs:
                        if x[0] == "none":
                            ctx.ob("survives-stop", con, False, ctx.where(f), f"uses the rows of a stop that has none: {x[1]}")
                    if STOPPED in rs:
                        stopped += 1
                        ctx.ob("survives-stop", con, not any(x[0] == "none" for x in rs), ctx.where(f), "uses missing rows")
                    if callback:
                        continue
                    kinds = {x[1] for x in rs if x[0] == "kind"}
                    if t is None or not kinds:
                        continue
                    ok = t[0] in ("tuple", "list", "clist") and len(t[1]) and all(t[1][-1] == FIN.get(q) for q in kinds)
                    ctx.ob("finish", con, ok, ctx.where(f), f"returns {show(t)[-60:]} and not the persistent-finished status")
                driven = any(g.qual in callbacks for g in p.funcs.values() if g is f or g in callees(p, f))
                if driven:
                    ctx.ob("ends", con + " caught", done and not res["raise"], ctx.where(f), "the exception a stopped callback raises is not caught")
                else:
                    ctx.ob("ends", con, stopped > 0, ctx.where(f), "no path ends after a stop")
                if f in nested:
                    ctx.ob("ends", con + " leaves", all(STOPPED not in (st.rs or ()) for st, _ in done), ctx.where(f), "the callback returns to the optimizer after a stop")
    ctx.floor("persistent functions", len(entries), 25)
    ctx.floor("ends", n, 200)
