"""Communicators, thread/process teams, message numbers, message framing (C01-C04)."""
import ast

from . import check
from .common import *  # noqa
from .resources import exc_name

CM = LIB + "comms.comms"
LOCAL = CM + ":QCommLocal"
MSG = P("@message")
EMPTY = "queue.Empty"
RECV = ("get", "get_nowait", "recv")


class Sim(Rule):
    """Valuation-driven run with ordered labels: decide(atom, st), raises(ev, st), result(ev, st), label(ev, st)."""
    havoc = True

    def __init__(self, decide=None, raises=None, result=None, label=None, inline=None, value=None, limit=14, **kw):
        self.d, self.r, self.c, self.l, self.i, self.v, self.limit = decide, raises, result, label, inline, value, limit
        for k, v in kw.items():
            setattr(self, k, v)

    def oracle(self, atom, st, eng):
        return self.d(atom, st) if self.d else None

    def may_raise(self, ev, st, eng):
        return self.r(ev, st) if self.r else False

    def call_value(self, ev, st, eng):
        return self.c(ev, st) if self.c else None

    def inline(self, f, eng):
        return self.i(f) if self.i else True

    def value(self, term, st, eng):
        return self.v(term) if self.v else None

    def on_event(self, ev, st, eng):
        r = self.l(ev, st) if self.l else None
        if r is not None:
            rs = st.rs or ()
            if len(rs) < self.limit:
                st.rs = rs + (r,)
            elif rs[-1] != ("more",):
                st.rs = rs[:-1] + (("more",),)


def isinst(atom):
    """(subject, class quals) of an isinstance atom, or None."""
    t = atom[1] if atom[0] == "t" else atom
    if callname(t) == "isinstance" and len(t[2]) == 2:
        c = t[2][1]
        cs = c[1] if c[0] in ("tuple", "clist", "list") else (c,)
        return t[2][0], {x[1] for x in cs if x[0] in ("cls", "g")}
    return None


def exc_of(st):
    return exc_name(st.exc)


def timeout_arg(ev):
    """(block, timeout) of a queue.get call."""
    if ev.name == "get_nowait":
        return FALSE, NONE
    b = ev.kw.get("block", ev.args[0] if ev.args else TRUE)
    t = ev.kw.get("timeout", ev.args[1] if len(ev.args) > 1 else NONE)
    return b, t


def vararg(fi):
    return fi.node.args.vararg.arg if fi.node.args.vararg else None


def buffer_of(ctx, c):
    """Attribute of class c that push_to_buffer fills; the obligation that it is filled with the message."""
    f = ctx.p.method(c, "push_to_buffer")
    va = vararg(f)
    res = ctx.engine(Sim(inline=lambda g: True)).run(f, cls=c)
    buf = None
    for st, _ in res["return"]:
        hit = [l for l, v in st.heap.items() if l[0] == "a" and l[1] == SELF and strip_arr(v) == P(va)] if va else []
        ctx.ob("buffer-first", f"{c.name} push", len(hit) == 1, ctx.where(f), "a pushed-back message is not kept as it is")
        buf = hit[0] if hit else buf
    return buf


@check("C01", "truth tables of every communicator's receive/flag methods over (message pushed back, inbox empty, timeout given/expired, final result seen), with two-step histories for the final result")
def c01(ctx):
    p = ctx.p
    ctx.rule("buffer-first", "with a pushed-back message every path of recv returns exactly that message, empties the buffer and reads nothing else; without one the buffer stays empty")
    ctx.rule("mail-flag", "mail_flag is true exactly when a message is pushed back or waiting")
    ctx.rule("one-read", "without a pushed-back message recv performs exactly one read and returns that message")
    ctx.rule("timeout", "a read of recv carries the caller's timeout unless a message is known to wait, and its expiry becomes the timeout error")
    ctx.rule("finished", "after the final result (or error) message, recv raises the finished error, now and at every later call, and delivers nothing")
    base = p.cls(CM + ":Comm")
    bufd = [c for c in p.classes.values() if p.method(c, "push_to_buffer") is not None and p.method(c, "recv") is not None]
    ctx.floor("communicators with a pushed-back message", len(bufd), 3)
    opaque = {"process_incoming", "process_outgoing", "clean_outbox"}
    for c in bufd:
        frecv, fmail = p.method(c, "recv"), p.method(c, "mail_flag")
        if fmail is None:
            ctx.ob("mail-flag", c.name, False, "", "no mail_flag")
            continue
        buf = buffer_of(ctx, c)
        if buf is None:
            continue
        isnone, tr = mk_cmp("==", buf, NONE), ("t", buf)
        tout = P(next((x for x in frecv.params if x == "timeout"), frecv.params[-1]))

        def about(have):
            def d(atom, st=None):
                if atom == isnone:
                    return not have
                if atom == tr:
                    return have
            return d

        def reads(ev, st):
            if ev.kind == "call" and ev.name in RECV and ev.base is not None and ev.base != SELF:
                return ("read", ev.name)

        # ---- a message was pushed back
        res = ctx.engine(Sim(about(True), label=reads)).run(frecv, cls=c)
        ctx.ob("buffer-first", f"{c.name} recv", bool(res["return"]) and not res["raise"], ctx.where(frecv), "recv may fail although a message is pushed back")
        for st, t in res["return"]:
            ctx.ob("buffer-first", f"{c.name} recv", t == buf, ctx.where(frecv), f"recv returns {show(t)} although a message is pushed back")
            ctx.ob("buffer-first", f"{c.name} once", st.heap.get(buf) == NONE, ctx.where(frecv), "the pushed-back message stays in the buffer and is received twice")
            ctx.ob("buffer-first", f"{c.name} only", not st.rs, ctx.where(frecv), "another message is read (and lost) while one is pushed back")
        # ---- flag
        for have in (True, False):
            for wait in (True, False):
                def d(atom, st=None):
                    r = about(have)(atom)
                    if r is not None:
                        return r
                    n = callname(atom[1]) if atom[0] == "t" else None
                    if n == ".empty":
                        return not wait
                    if n in (".Iprobe", ".iprobe", ".improbe"):
                        return wait
                    if atom[0] == "cmp" and any(callname(x) == ".qsize" for x in subterms(atom)):
                        return None
                res = ctx.engine(Sim(d, result=lambda ev, st: C(wait) if ev.name in ("Iprobe", "iprobe") else (C(not wait) if ev.name == "empty" else None))).run(fmail, cls=c)
                for st, t in res["return"]:
                    got = truth(t, lambda a: d(a), st)
                    if got is None:
                        ctx.assumption(f"{c.name}.mail_flag: {show(t)} is not understood")
                    ctx.ob("mail-flag", f"{c.name} pushed={have} waiting={wait}", got is None or got is (have or wait), ctx.where(fmail),
                           f"mail_flag is {got} with pushed-back={have} waiting={wait}")
                ctx.ob("mail-flag", f"{c.name} pushed={have} waiting={wait}", bool(res["return"]), ctx.where(fmail), "mail_flag never returns")
        # ---- reads
        queue = any(callname(t) == ".get" or t[0] == "call" for t in [])
        for given in (True, False):
            for wait in (True, False):
                seen = []

                def d(atom, st=None):
                    r = about(False)(atom)
                    if r is not None:
                        return r
                    if atom == mk_cmp("==", tout, NONE):
                        return not given
                    if atom[0] == "t" and callname(atom[1]) == ".empty":
                        return not wait
                    if atom[0] == "t" and callname(atom[1]) in (".mail_flag",):
                        return wait

                def label(ev, st):
                    if ev.kind == "call" and ev.name in ("get", "get_nowait") and ev.base is not None and ev.base[0] == "a":
                        b, t = timeout_arg(ev)
                        nw = any(a[0] == "t" and callname(a[1]) == ".empty" and v is False for a, v in st.facts.items()) or wait
                        seen.append((ev.where(), b, t, nw))
                    if ev.kind == "callret" and ev.name in RECV and ev.base is not None and ev.base != SELF:
                        return ("read", ev.name)
                inl = (lambda g: g.name not in opaque | {"mail_flag"}) if p.method(c, "mail_flag") else None
                res = ctx.engine(Sim(d, raises=lambda ev, st: [EMPTY] if ev.name in ("get", "get_nowait") and not wait and given else False,
                                     result=lambda ev, st: (MSG if ev.name in RECV and ev.base != SELF else (C(wait) if ev.name == "mail_flag" else (C(not wait) if ev.name == "empty" else None))),
                                     label=label, inline=inl)).run(frecv, cls=c)
                con = f"{c.name} timeout={'given' if given else 'none'} waiting={wait}"
                for st, t in res["return"]:
                    rd = [x for x in st.rs or () if x[0] == "read"]
                    ok = len(rd) == 1 and (t == MSG or contains(t, MSG))
                    ctx.ob("one-read", con, ok, ctx.where(frecv), f"{len(rd)} reads on a path returning {show(t)}")
                    ctx.ob("buffer-first", f"{c.name} stays empty", st.heap.get(buf, NONE) == NONE, ctx.where(frecv), "recv fills the buffer itself")
                    if rd and rd[0][1] == "recv" and given and not wait:
                        ctx.ob("timeout", con, False, ctx.where(frecv), "a blocking read is reached with a timeout and no message waiting")
                for st in res["raise"]:
                    e = exc_of(st)
                    ctx.ob("timeout", con, e == "Timeout" and given and not wait, ctx.where(frecv), f"{e} is raised")
                    for a, v in st.facts.items():
                        if a[0] == "cmp" and a[1] == "<0" and dict(a[2]).get(tout) is not None:
                            k = dict(a[2])[tout]
                            ctx.ob("timeout", con + " expiry", (k > 0) is v, ctx.where(frecv), "the timeout error is raised before the time has passed")
                if given and not wait:
                    ctx.ob("timeout", con, bool(res["raise"]), ctx.where(frecv), "an expired receive does not raise the timeout error")
                if wait or not given:
                    ctx.ob("one-read", con, bool(res["return"]), ctx.where(frecv), "a waiting message is never returned")
                for where, b, t, nw in seen:
                    okb = not is_c(b) or bool(b[2]) or nw
                    ctx.ob("timeout", f"{c.name} read", okb and (nw or not given or t == tout), where, f"the read waits with block={show(b)} timeout={show(t)}, not with the caller's timeout")

    # ---- final results of threads and processes
    loc = p.cls(LOCAL)
    frecv = p.meth(LOCAL, "recv")
    subs = [c for c in p.classes.values() if loc in p.mro(c) and c is not loc]
    ctx.floor("thread/process teams", len(subs), 2)
    for c in subs:
        fr = p.method(c, "recv")
        init = init_heap(ctx, c)
        for kind in ("result", "err", "plain", "none"):
            res = local_run(ctx, c, fr, init, kind, wait=True)
            con = f"{c.name} {kind} message"
            if kind in ("plain", "none"):
                ctx.ob("one-read", con, bool(res["return"]) and not res["raise"], ctx.where(fr), "a plain message is not delivered")
                for st, t in res["return"]:
                    ctx.ob("one-read", con, t == MSG and [x[0] for x in st.rs or ()].count("read") == 1, ctx.where(fr), f"recv returns {show(t)}")
                    again = local_run(ctx, c, fr, st.heap, "plain", wait=True)
                    ctx.ob("one-read", con + ", then another", bool(again["return"]) and not again["raise"], ctx.where(fr), "no message is delivered after a plain one")
                continue
            ctx.ob("finished", con, bool(res["raise"]) and not res["return"], ctx.where(fr), "the final message is delivered as an ordinary message")
            for st in res["raise"]:
                ctx.ob("finished", con, exc_of(st) == "CommFinishedException", ctx.where(fr), f"{exc_of(st)} raised for the final message")
                again = local_run(ctx, c, fr, st.heap, "plain", wait=True)
                ok = bool(again["raise"]) and not again["return"] and all(exc_of(z) == "CommFinishedException" and not [x for x in z.rs or () if x[0] == "read"] for z in again["raise"])
                ctx.ob("finished", con + ", then recv", ok, ctx.where(fr), "a receive after the final message does not raise the finished error")
        for given in (True, False):
            res = local_run(ctx, c, fr, init, "plain", wait=False, given=given, empty=given)
            con = f"{c.name} timeout={'given' if given else 'none'} waiting=False"
            if given:
                ctx.ob("timeout", con, bool(res["raise"]) and all(exc_of(z) == "Timeout" for z in res["raise"]), ctx.where(fr), "an expired receive does not raise the timeout error")
        fm = p.method(c, "mail_flag")
        for wait in (True, False):
            res = ctx.engine(Sim(lambda a, st: (not wait) if a[0] == "t" and callname(a[1]) == ".empty" else None,
                                 result=lambda ev, st: C(not wait) if ev.name == "empty" else None)).run(fm, cls=c, heap=init)
            for st, t in res["return"]:
                got = truth(t, lambda a: None, st)
                ctx.ob("mail-flag", f"{c.name} waiting={wait}", got is None or got is wait, ctx.where(fm), f"mail_flag is {got} with waiting={wait}")


def init_heap(ctx, c):
    f = ctx.p.method(c, "__init__")
    res = ctx.engine(Sim()).run(f, cls=c)
    if not res["return"]:
        raise AnalysisBroken(f"{c.name}.__init__ has no normal path")
    return res["return"][0][0].heap


def msg_decide(kind):
    def d(atom, st=None):
        r = isinst(atom)
        if r and r[0] == I(MSG, C(0)):
            ns = {x.split(":")[-1].split(".")[-1] for x in r[1]}
            return {"result": "CommResult", "err": "CommResultErr"}.get(kind, "-") in ns
        if atom == ("t", MSG):
            return kind != "none"
        if atom == mk_cmp("==", I(MSG, C(0)), NONE):
            return False
        if atom == ("t", I(MSG, C(0))) and kind in ("result", "err"):
            return True
        if atom[0] == "cmp" and ("len", MSG) in [x for x in subterms(atom)]:
            n = 0 if kind == "none" else 1
            try:
                return rowval(atom, lambda t: n if t == ("len", MSG) else NOVAL)
            except Unk:
                return None
    return d


def local_run(ctx, c, f, heap, kind, wait=True, given=False, empty=False, label=None, raises=None, more=None, inline=None):
    d0 = msg_decide(kind)
    tout = P(f.params[-1]) if len(f.params) > 1 else None

    def d(atom, st):
        r = d0(atom)
        if r is not None:
            return r
        if more:
            r = more(atom, st)
            if r is not None:
                return r
        if atom[0] == "t" and callname(atom[1]) == ".empty":
            return not wait
        if tout is not None and atom == mk_cmp("==", tout, NONE):
            return not given

    def lab(ev, st):
        if ev.kind == "callret" and ev.name in ("get", "get_nowait") and ev.base != SELF:
            b, t = timeout_arg(ev)
            return ("read", b, t if not bigger_term(t) else P("@big"))
        return label(ev, st) if label else None
    return ctx.engine(Sim(d, label=lab, result=lambda ev, st: MSG if ev.name in ("get", "get_nowait") and ev.base != SELF else (C(not wait) if ev.name == "empty" else None),
                          raises=lambda ev, st: ([EMPTY] if ev.name in ("get", "get_nowait") and empty else (raises(ev, st) if raises else False)),
                          inline=inline)).run(f, cls=c, heap=heap)


def bigger_term(t):
    return sum(1 for _ in subterms(t)) > 40


def flat_sum(t):
    """Items of a concatenation of tuples/lists; whole parts appear as ('*', term)."""
    if t[0] == "b" and t[1] == "+":
        return flat_sum(t[2]) + flat_sum(t[3])
    if t[0] in ("tuple", "list", "clist"):
        out = []
        for x in t[1]:
            out += [("*", x[1])] if x[0] == "star" else [x]
        return out
    return [("*", t)]


@check("C02", "path enumeration of the launched main routine (returning / raising), truth tables of result() and terminate() over message kind, expiry and liveness, queue wiring by data flow")
def c02(ctx):
    p = ctx.p
    ctx.rule("one-final", "the launched routine sends exactly one final message on every path: the function's value, or the error text and traceback; an error continues to the thread or process")
    ctx.rule("wiring", "the launched routine gets its communicator, the function and the function's arguments; what the creator sends is what the launched side receives, and the reverse")
    ctx.rule("result-wait", "result() returns only after the final message and after ending the thread or process, returns exactly the sent value, re-raises a remote error with its text and traceback, and raises the timeout error when time runs out")
    ctx.rule("terminate", "terminate() joins with the given timeout, raises the timeout error exactly when the thread or process still runs, and a running process is terminated first")
    loc = p.cls(LOCAL)
    subs = [c for c in p.classes.values() if loc in p.mro(c) and c is not loc]
    ctx.floor("thread/process teams", len(subs), 2)
    mains = {}
    for c in subs:
        f = p.method(c, "__init__")
        res = ctx.engine(Sim()).run(f, cls=c)
        proc = False
        for st, _ in res["return"]:
            hs = [(l, v) for l, v in st.heap.items() if l[0] == "a" and l[1] == SELF and v[0] == "call" and any(k == "target" for k, _ in v[3])]
            if not ctx.ob("wiring", f"{c.name} handle", len(hs) == 1, ctx.where(f), "no thread or process handle is made"):
                continue
            (hl, h), = hs
            proc = "Process" in str(h[1])
            kw = dict(h[3])
            tg = kw.get("target")
            if tg is None or tg[0] != "fn":
                ctx.assumption(f"{c.name}: target {show(tg) if tg else None} is not understood")
                continue
            mains[tg[1]] = p.funcs[tg[1]]
            items = flat_sum(kw.get("args", ("tuple", ())))
            va = vararg(f)
            ok = len(items) == 3 and items[0][0] == "new" and items[0][2].endswith(":QComm") and items[1] == P("main") and items[2] == ("*", P(va))
            if f.node.args.kwarg:
                ok = ok and kw.get("kwargs") == P(f.node.args.kwarg.arg)
            ctx.ob("wiring", f"{c.name} arguments", ok, ctx.where(f), f"the routine is started with {[show(x) if x[0] != '*' else '*' + show(x[1]) for x in items]}")
            if items and items[0][0] == "new":
                comm = items[0]
                qc = p.cls(CM + ":QComm")
                ends = {}
                for who, term, cls in (("creator", SELF, c), ("launched", comm, qc)):
                    for m, names in (("send", ("put", "put_nowait")), ("recv", ("get", "get_nowait"))):
                        fm = p.method(cls, m)
                        got = set()

                        def lab(ev, st2):
                            if ev.kind == "call" and ev.name in names and ev.base is not None and ev.base[0] != "p" and ev.base != term:
                                got.add((ev.base, ev.args[0] if m == "send" and ev.args else None))
                        ctx.engine(Sim(label=lab), types={comm: {qc.qual}}).run(fm, cls=cls, self_term=term, heap=st.heap)
                        ends[who, m] = got
                        if m == "send":
                            ok = bool(got) and all(a is not None and (strip_arr(a) == P(vararg(fm)) or a[0] == "new" and not is_c(a) or callname(a) == "copy.deepcopy") for _, a in got)
                            ctx.ob("wiring", f"{c.name} {who} message", ok, ctx.where(fm), "the message is changed on its way into the queue")
                for a, b in ((("creator", "send"), ("launched", "recv")), (("launched", "send"), ("creator", "recv"))):
                    qa, qb = {x[0] for x in ends[a]}, {x[0] for x in ends[b]}
                    ctx.ob("wiring", f"{c.name} {a[0]} to {b[0]}", len(qa) == 1 and qa == qb, ctx.where(f), f"{a[0]} sends to {sorted(map(show, qa))}, {b[0]} receives from {sorted(map(show, qb))}")
                q1, q2 = {x[0] for x in ends["creator", "send"]}, {x[0] for x in ends["launched", "send"]}
                ctx.ob("wiring", f"{c.name} two queues", not q1 & q2, ctx.where(f), "both directions share one queue")
        # ---- terminate
        ft = p.method(c, "terminate")
        if not ctx.ob("terminate", c.name, ft is not None, "", "no terminate"):
            continue
        tout = P(ft.params[1])
        init = {l: v for l, v in init_heap(ctx, c).items()}
        for before in (True, False):
            for after in (True, False):
                if after and not before:
                    continue

                def alive(st):
                    return after if ("join",) in [x[:1] for x in st.rs or ()] else before

                def lab(ev, st):
                    if ev.kind == "callret" and ev.name in ("join", "terminate", "kill") and ev.base != SELF:
                        t = ev.kw.get("timeout", ev.args[0] if ev.args else NONE)
                        return ("join", t) if ev.name == "join" else ("kill",)
                res = ctx.engine(Sim(result=lambda ev, st: C(alive(st)) if ev.name == "is_alive" else None, label=lab)).run(ft, cls=c, heap=init)
                con = f"{c.name} running before={before} after join={after}"
                outs = [("return", st) for st, _ in res["return"]] + [(exc_of(st), st) for st in res["raise"]]
                for o, st in outs:
                    rs = st.rs or ()
                    names = [x[0] for x in rs]
                    ctx.ob("terminate", con, o == ("Timeout" if after else "return"), ctx.where(ft), f"terminate ends with {o}")
                    j = [x for x in rs if x[0] == "join"]
                    ctx.ob("terminate", con + " join", bool(j) and all(x[1] == tout for x in j), ctx.where(ft), "it is not joined with the given timeout")
                    if proc and before:
                        ctx.ob("terminate", con + " kill", "kill" in names and names.index("kill") < (names.index("join") if "join" in names else 99), ctx.where(ft), "a running process is not terminated before it is joined")
                ctx.ob("terminate", con, bool(outs), ctx.where(ft), "terminate never ends")
        # ---- result
        fr, frecv = p.method(c, "result"), p.method(c, "recv")
        to = P(fr.params[1])
        fld = {"result": "value"}

        def lab2(ev, st):
            if ev.kind == "callret" and ev.name in ("terminate", "join"):
                t = ev.kw.get("timeout", ev.args[0] if ev.args else NONE)
                return ("end", ev.name)
            if ev.kind == "raise":
                return ("raise", ev.value if not bigger_term(ev.value) else NONE)
        inl = lambda g: g.name != "terminate"

        def judge(res, con, kind, seen_before, given):
            for st, t in res["return"]:
                rs = [x[0] for x in st.rs or ()]
                ctx.ob("result-wait", con, kind == "result", ctx.where(fr), f"result() returns {show(t)} for {con}")
                if kind == "result":
                    ctx.ob("result-wait", con + " value", t == A(I(MSG, C(0)), "value"), ctx.where(fr), f"result() returns {show(t)} instead of the sent value")
                    ctx.ob("result-wait", con + " ended", "end" in rs, ctx.where(fr), "result() returns without ending the thread or process")
                    ctx.ob("result-wait", con + " reads", seen_before == ("read" not in rs), ctx.where(fr), "result() reads past (or without) the final message")
            for st in res["raise"]:
                e = exc_of(st)
                if kind == "err" and e == "RemoteException":
                    v = [x[1] for x in st.rs or () if x[0] == "raise"][-1:]
                    want = {A(I(MSG, C(0)), "msg"), A(I(MSG, C(0)), "exc")}
                    ok = bool(v) and v[0][0] == "call" and list(v[0][2]) + [x for _, x in v[0][3]] == [A(I(MSG, C(0)), "msg"), A(I(MSG, C(0)), "exc")]
                    ctx.ob("result-wait", con + " error", ok, ctx.where(fr), "the remote error is re-raised without its text and traceback")
                    ctx.ob("result-wait", con + " ended", "end" in [x[0] for x in st.rs or ()], ctx.where(fr), "the error is raised without ending the thread or process")
                else:
                    ctx.ob("result-wait", con + " outcome", e == "Timeout" and given, ctx.where(fr), f"result() raises {e}")
            if kind == "result":
                ctx.ob("result-wait", con, bool(res["return"]), ctx.where(fr), "result() never returns the value")
            if kind == "err":
                ctx.ob("result-wait", con, any(exc_of(z) == "RemoteException" for z in res["raise"]), ctx.where(fr), "the remote error is not re-raised")
        for given in (True, False):
            for kind in ("result", "err", "plain"):
                con = f"{c.name} {kind} timeout={'given' if given else 'none'}"
                res = local_run(ctx, c, fr, init, kind, given=given, label=lab2, inline=inl)
                judge(res, con, kind, False, given)
                for z in [s for s, _ in res["return"]] + res["raise"]:
                    for x in z.rs or ():
                        if x[0] == "read":
                            okb = not is_c(x[1]) or bool(x[1][2])
                            ctx.ob("result-wait", con + " read", okb and (not given or contains(x[2], to) or x[2] == P("@big")), ctx.where(fr), f"a read waits with timeout {show(x[2])}")
                if given and kind == "plain":
                    ctx.ob("result-wait", con, any("read" in [x[0] for x in z.rs or ()] for z in res["raise"]), ctx.where(fr), "time never runs out while ordinary messages arrive")
                if kind != "plain":
                    r1 = local_run(ctx, c, frecv, init, kind, wait=True)
                    for st in r1["raise"]:
                        judge(local_run(ctx, c, fr, st.heap, "plain", given=given, label=lab2, inline=inl), con + " seen by recv", kind, True, given)
        res = local_run(ctx, c, fr, init, "plain", given=True, empty=True, label=lab2, inline=inl)
        ctx.ob("result-wait", f"{c.name} nothing arrives", bool(res["raise"]) and all(exc_of(z) == "Timeout" for z in res["raise"]), ctx.where(fr), "an expired wait does not raise the timeout error")
        for m, nm in (("run", "start"), ("__exit__", "join")):
            f = p.method(c, m)
            if f is None:
                continue
            res = ctx.engine(Sim(label=lambda ev, st: (ev.name,) if ev.kind == "callret" and ev.name in ("start", "join") else None)).run(f, cls=c, heap=init)
            for st, _ in res["return"]:
                ctx.ob("terminate", f"{c.name} {m}", [x[0] for x in st.rs or ()] == [nm], ctx.where(f), f"{m} does not {nm} the thread or process once")
    # ---- the launched routine
    ctx.floor("launched routines", len(mains), 1)
    for f in mains.values():
        comm, main = P(f.params[0]), P(f.params[1])
        for fails in (True, "SystemExit", False):
            for user in (True, False):
                def lab(ev, st):
                    if ev.kind == "call" and ev.extra == main:
                        return ("main", tuple(ev.args), tuple(sorted(ev.kw)))
                    if ev.kind == "callret" and ev.name == "send" and ev.base == comm:
                        return ("send", tuple(describe(a, st) for a in ev.args))

                def describe(a, st):
                    if a[0] == "new" and a[2].startswith("obj:"):
                        fs = tuple(sorted((l[2], v) for l, v in st.heap.items() if l[0] == "a" and l[1] == a))
                        return (a[2].split(":")[-1], fs)
                    return ("?", a)

                def d(atom, st):
                    if atom[0] == "cmp" and atom[1] == "in" and is_strc(atom[2]):
                        return user
                    if atom[0] == "t" and atom[1][0] == "i" and is_strc(atom[1][2]):
                        return user
                    if atom[0] == "t" and callname(atom[1]) in (".get", ".pop"):
                        return user
                rule = Sim(d, raises=lambda ev, st: ([fails] if isinstance(fails, str) else fails) if ev.extra == main else False, label=lab,
                           result=lambda ev, st: P("@value") if ev.extra == main else None)
                res = ctx.engine(rule).run(f)
                con = f"{f.name} {'calls sys.exit' if fails == 'SystemExit' else 'raises' if fails else 'returns'} user_function={user}"
                ends = [(st, "return") for st, _ in res["return"]] + [(st, "raise") for st in res["raise"]]
                ctx.ob("one-final", con, bool(ends), ctx.where(f), "no path ends")
                saw = False
                for st, how in ends:
                    rs = st.rs or ()
                    snd = [x for x in rs if x[0] == "send"]
                    failed = how == "raise" or any(x[0] == "send" and x[1][:1] and x[1][0][0] == "CommResultErr" for x in rs)
                    mn = [x for x in rs if x[0] == "main"]
                    ctx.ob("one-final", con + " called once", len(mn) == 1, ctx.where(f), f"the function is called {len(mn)} times")
                    if mn:
                        a, k = mn[0][1], mn[0][2]
                        star = ("star", P(vararg(f)))
                        want = (star,) if user else (comm, star)
                        ctx.ob("wiring", con + " call", a == want and (user or k == ("**",)), ctx.where(f), f"the function is called with {[show(x) for x in a]}")
                    ctx.ob("one-final", con + " one message", len(snd) == 1 and len(snd[0][1]) == 1, ctx.where(f), f"{len(snd)} final messages are sent")
                    if len(snd) != 1 or len(snd[0][1]) != 1:
                        continue
                    kind, fs = snd[0][1][0]
                    fs = dict(fs) if isinstance(fs, tuple) and fs and isinstance(fs[0], tuple) and len(fs[0]) == 2 else {}
                    if fails and how == "raise":
                        saw = True
                        msg, ex = fs.get("msg", NONE), fs.get("exc", NONE)
                        ok = kind == "CommResultErr" and any(x[0] == "excval" for x in subterms(msg)) and "format_exc" in str(callname(ex) or ex)
                        ctx.ob("one-final", con + " content", ok, ctx.where(f), f"the error message is {kind}({show(msg)}, {show(ex)})")
                    elif not fails:
                        ctx.ob("one-final", con + " content", how == "return" and kind == "CommResult" and fs.get("value") == P("@value"), ctx.where(f), f"the final message is {kind} of {[show(x) for x in fs.values()]}")
                if fails is True:
                    ctx.ob("one-final", con + " continues", saw, ctx.where(f), "an error in the function does not leave the routine as an error")
                    for st, how in ends:
                        if how == "return":
                            bad = not any(x[0] == "send" and x[1] and x[1][0][0] == "CommResult" for x in st.rs or ())
                            ctx.ob("one-final", con + " continues", not bad, ctx.where(f), "an error in the function does not leave the routine as an error")
