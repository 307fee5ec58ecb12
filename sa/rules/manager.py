"""M01, M02, M04-M11: the manager loop, its state tables and its criteria (manager.py)."""
from . import check
from .common import *

MQ = LIB + "manager:Manager"
W = A(SELF, "W")
HIST = A(SELF, "hist")
HH = A(HIST, "H")
WCOMMS = A(SELF, "wcomms")
PEND = A(SELF, "persis_pending")
WEXC = A(SELF, "WorkerExc")
ACTIVE_ANY = ("t", ("any", I(W, "active")))
IDS = I(W, "worker_id")


def any_of(atom, field):
    """Atom is any(W[field]) in one of its spellings -> True (holds iff any set) / False (negated) / None."""
    x = atom[1] if atom[0] == "t" else atom
    if x[0] == "any":
        y = x[1]
        at = mask_atoms(y)
        if at == [(I(W, field), True)]:
            return True
    if x[0] == "call" and callname(x) in ("numpy.any", "any", ".any", "numpy.count_nonzero", "sum", "numpy.sum", ".sum") and x[2]:
        if mask_atoms(x[2][0]) == [(I(W, field), True)]:
            return True
    if atom[0] == "all" or x[0] == "all":
        if mask_atoms(x[1]) == [(I(W, field), False)]:
            return False
    return None


def none_set(st, field):
    """Facts say no worker has the field set."""
    for a, v in st.facts.items():
        r = any_of(a, field)
        if r is True and v is False or r is False and v is True:
            return True
    return False


def comm_of(base):
    """Worker id term of a communicator expression, or None."""
    if base is None:
        return None
    if base[0] == "i" and base[1] == WCOMMS:
        return base[2]
    if base[0] == "elem" and base[1] == WCOMMS:
        return ("each-comm",)
    return None


def is_all_ids(t):
    """The iterable enumerates every worker id / communicator."""
    t = strip_deep(t)
    return t in (IDS, WCOMMS) or callname(t) == "enumerate" and t[2] and strip_deep(t[2][0]) in (IDS, WCOMMS)


def ids_masked(t):
    """worker ids restricted by a mask -> list of (atom, polarity), [] for all ids, None for anything else."""
    t = strip_deep(t)
    if t == IDS:
        return []
    if t[0] == "i" and t[2] == C("worker_id") and t[1][0] == "i" and t[1][1] == W:
        m = t[1][2]
        if callname(m) == "numpy.flatnonzero" and m[2]:
            m = m[2][0]
        return mask_atoms(m)
    return None


def final_call(p):
    fr = p.meth(MQ, "_final_receive_and_kill")
    return fr


# ---------------------------------------------------------------------------------------------- M01
@check("M01")
def m01(ctx):
    ctx.rule("final-phase-always", "every path out of run(), normal or exceptional (any in-repo callee may raise anything), passes through "
             "_final_receive_and_kill exactly once, and a normal return hands back its value")
    ctx.rule("stop-persistent", "before receiving, each worker whose persistent state is set is sent PERSIS_STOP, recorded as pending and kept active")
    ctx.rule("receive-until-idle", "the receive loop is left only with no worker active or persistent, or on expired wall clock with none "
             "persistent, or after a worker failure; the flag returned says which")
    ctx.rule("finish-all", "after the last receive every worker is sent STOP_TAG / MAN_SIGNAL_FINISH, then an on-manager thread is joined")
    p = ctx.p
    run, fin = p.meth(MQ, "run"), final_call(p)
    inl = reach_inline(p, "_final_receive_and_kill")

    def event(ev, st, eng):
        if ev.kind in ("call", "callin") and ev.name == "_final_receive_and_kill":
            st.rs = (st.rs or 0) + 1

    def may(ev, st, eng):
        if ev.name == "_final_receive_and_kill" or ev.callee is None:
            return False
        return ev.callee in p.funcs and ev.func.cls is not None and ev.func.cls.qual == MQ
    RES = P("@final")
    rule = Fn(event=event, inline=inl, may_raise=may, base_exc=True, relevant=lambda a: False, havoc=False,
              call_value=lambda ev, st, eng: RES if ev.name == "_final_receive_and_kill" else None)
    res = ctx.engine(rule).run(run)
    ctx.floor("exits of run()", len(res["return"]) + len(res["raise"]), 2)
    for st, v in res["return"]:
        ctx.ob("final-phase-always", "run return", st.rs == 1, ctx.where(run), f"a normal exit runs the final phase {st.rs or 0} times")
        ok = v == RES or v[0] == "tuple" and all(x == I(RES, i) for i, x in enumerate(v[1])) and len(v[1]) == 3
        ctx.ob("final-phase-always", "run result", ok, ctx.where(run), f"run returns {show(v)}, not the outcome of the final phase")
    for st in res["raise"]:
        ctx.ob("final-phase-always", "run raise", st.rs == 1, ctx.where(run), f"an exceptional exit ({st.exc}) runs the final phase {st.rs or 0} times")

    # ---- final phase
    STOP = K(p, "PERSIS_STOP")
    recv = p.meth(MQ, "_receive_from_workers")
    kill, clean = p.meth(MQ, "_kill_workers"), p.meth(MQ, "_clean_up_thread")
    bad = []
    seen = {"loop": 0, "kill": 0}

    def match(ev, st):
        if ev.extra is None or _is_comp_node(ev):
            return False
        r = ids_masked(ev.extra)
        if r is not None:
            return True
        return ev.extra == W or is_all_ids(ev.extra)

    def elem_id(ev):
        e = ev.value
        if e[0] == "tuple":
            e = e[1][-1]
        return I(e, "worker_id") if ev.extra == W else e

    def label(ev, st, eng):
        if ev.kind == "call" and ev.name == "send" and comm_of(ev.base) is not None:
            if ev.args and ev.args[0] == STOP:
                return ("stop", comm_of(ev.base))
        if ev.kind == "mutate" and ev.base == PEND and ev.name in ("append", "add"):
            return ("pend", ev.args[0])
        if ev.kind == "store" and ev.loc == PEND:
            return ("pendset", ev.value)
        if ev.kind == "store" and ev.loc[0] == "i" and ev.loc[2] == C("active"):
            w = ev.loc[1]
            return ("act", w[2] if w[0] == "i" else w) if not is_zeroc(ev.value) else ("deact",)
        if ev.kind in ("call", "callin") and ev.name == "_receive_from_workers":
            rs = st.rs or (frozenset(), None)
            if ("rcv",) not in rs[0]:
                if ("loop",) not in rs[0] and not none_set(st, "persis_state"):
                    bad.append((ev.where(), "the receive loop is reached without telling the persistent workers to stop"))
            return ("rcv",)
        if ev.kind in ("call", "callin") and ev.name == "_kill_workers":
            seen["kill"] += 1
            rs = st.rs or (frozenset(), None)
            idle = none_set(st, "persis_state") and none_set(st, "active")
            wall = any(v and a[0] == "cmp" and a[1] == "==" and a[2] == P("@tt") and a[3] == C(2) for a, v in st.facts.items()) and none_set(st, "persis_state")
            wexc = st.facts.get(("t", WEXC)) is True
            if not (idle or wall or wexc):
                bad.append((ev.where(), "workers are killed although some may still be active or persistent, the wall clock has not expired and none failed"))
            if ("loop",) not in rs[0] and not none_set(st, "persis_state") and ("rcv",) not in rs[0]:
                bad.append((ev.where(), "the final phase can end without telling the persistent workers to stop"))
            return {("kill",), ("why", idle, wall, wexc)}
        if ev.kind in ("call", "callin") and ev.name == "_clean_up_thread":
            rs = st.rs or (frozenset(), None)
            if ("kill",) not in rs[0]:
                bad.append((ev.where(), "the on-manager thread is joined before it was told to finish"))
            return ("clean",)

    def close(cur, st, ev, eng):
        seen["loop"] += 1
        w = elem_id(ev)
        flt = ids_masked(ev.extra) or []
        extra = [a for a, pol in flt if a != I(W, "persis_state")]
        if any(a == I(W, "persis_state") and not pol for a, pol in flt) or extra:
            bad.append((ev.where(), f"workers told to stop are also restricted by {[show(x) for x in extra] or 'a negated persistent state'}"))
        ps = I(W, w, "persis_state")
        notp = st.facts.get(("t", ps)) is False or any(
            (v is False and mask_atoms(a) == [(ps, True)]) or (v is True and mask_atoms(a) == [(ps, False)]) for a, v in st.facts.items())
        if notp and not any(a == I(W, "persis_state") for a, _ in flt):
            return
        if not any(x[0] == "stop" and x[1] == w for x in cur):
            bad.append((ev.where(), "a persistent worker can be left without a PERSIS_STOP"))
        if not any(x[0] == "pend" and x[1] == w for x in cur) and not any(x[0] == "pendset" for x in cur):
            bad.append((ev.where(), "a persistent worker told to stop is not recorded as pending"))
        act = st.facts.get(("t", I(W, w, "active")))
        if not any(x[0] == "act" and x[1] == w for x in cur) and act is not True and ("t", I(W, w, "active")) not in st.facts and not _act_known(st, w):
            bad.append((ev.where(), "a persistent worker told to stop may be left inactive"))
    TT = P("@tt")
    opaque = {"_receive_from_workers", "_kill_workers", "_clean_up_thread", "_check_work_order", "_init_every_k_save", "term_test",
              "update_history_to_gen", "_set_resources", "extract_H_ranges", "elapsed", "live_update", "finalize"}

    def rel(a):
        return any_of(a, "active") is not None or any_of(a, "persis_state") is not None or mentions(a, lambda t: t in (TT, WEXC)) \
            or mentions(a, lambda t: t[0] == "i" and t[2] in (C("active"), C("persis_state")))
    rule = IterFx(match, label, close, inline=lambda f, e: f.name not in opaque, relevant=rel,
                  call_value=lambda ev, st, eng: TT if ev.name == "term_test" else None)
    eng = ctx.engine(rule)
    res = eng.run(fin)
    ctx.floor("stop loop iterations / kill sites in the final phase", min(seen["loop"], seen["kill"]), 1)
    stopbad = [b for b in bad if "persistent" in b[1] and "killed" not in b[1] or "restricted" in b[1]]
    ctx.ob("stop-persistent", "final phase", not stopbad, stopbad[0][0] if stopbad else "", stopbad[0][1] if stopbad else "")
    rb = [b for b in bad if b not in stopbad]
    ctx.ob("receive-until-idle", "final phase exits", not rb, rb[0][0] if rb else "", rb[0][1] if rb else "")
    for st, v in res["return"]:
        outer = (st.rs or (frozenset(), None))[0]
        ctx.ob("finish-all", "final phase kills", ("kill",) in outer, ctx.where(fin), "a path through the final phase never sends the finish signal")
        ctx.ob("finish-all", "final phase joins", ("clean",) in outer, ctx.where(fin), "a path through the final phase never joins the on-manager thread")
        if v[0] == "tuple" and len(v[1]) == 3:
            f = v[1][1]
            why = [x[1:] for x in outer if x[0] == "why"]
            if is_c(f) and why:
                i, wl, we = why[0]
                ok = {0: i and not we, 1: we, 2: wl}.get(f[2], False)
                ctx.ob("receive-until-idle", "flag", ok or len(why) > 1, ctx.where(fin), f"flag {f[2]} is returned when idle={i} wallclock={wl} failure={we}")
    # order: no receive after kill
    late = []

    def event2(ev, st, eng):
        if ev.kind in ("call", "callin"):
            if ev.name == "_kill_workers":
                st.rs = "killed"
            elif ev.name == "_receive_from_workers" and st.rs == "killed":
                late.append(ev.where())
    ctx.engine(Fn(event=event2, inline=lambda f, e: f.name not in opaque | {"_send_work_order"}, relevant=lambda a: False)).run(fin)
    ctx.ob("receive-until-idle", "no receive after finish", not late, late[0] if late else "", "data is received after the workers were told to finish")

    # ---- _kill_workers
    kb = []
    it = {"n": 0}
    TAG, FIN = K(p, "STOP_TAG"), K(p, "MAN_SIGNAL_FINISH")

    def kmatch(ev, st):
        if ev.extra is None:
            return False
        x = strip_deep(ev.extra)
        return x in (W, WCOMMS) or mentions(x, lambda t: t in (IDS, WCOMMS))

    def klabel(ev, st, eng):
        if ev.kind == "call" and ev.name == "send" and comm_of(ev.base) is not None:
            return ("sent", comm_of(ev.base), tuple(ev.args))

    def kclose(cur, st, ev, eng):
        it["n"] += 1
        if not (is_all_ids(ev.extra) or ev.extra == W):
            kb.append((ev.where(), f"only {show(ev.extra)} are told to finish"))
        s = [x for x in cur if x[0] == "sent"]
        if not any(x[2][:2] == (TAG, FIN) for x in s):
            kb.append((ev.where(), "a worker may not be sent STOP_TAG / MAN_SIGNAL_FINISH"))
        if ev.name == "break":
            kb.append((ev.where(), "the loop over the workers may end early"))
    ctx.engine(IterFx(kmatch, klabel, kclose)).run(kill)
    ctx.ob("finish-all", "_kill_workers", not kb and it["n"] > 0, kb[0][0] if kb else ctx.where(kill), kb[0][1] if kb else "no loop over the workers")

    # ---- _clean_up_thread
    def orc(atom, st, eng):
        if atom[0] == "cmp" and atom[1] == "in" and atom[2] == C(0) and mentions(atom[3], lambda t: t == W):
            return True
        if mentions(atom, lambda t: t[0] == "i" and t[2] == C("gen_on_manager")):
            return True
    res = ctx.engine(Labels(lambda ev, st, e: ("res",) if ev.kind == "call" and ev.name == "result" and comm_of(ev.base) == C(0) else None, oracle=orc)).run(clean)
    for st, _ in res["return"]:
        ctx.ob("finish-all", "_clean_up_thread", ("res",) in (st.rs or ()), ctx.where(clean), "an on-manager generator thread is not waited for")
    ctx.assumption("Python calls of library routines inside the manager's own methods (logging, numpy) raise only where an in-repo callee can")


def _act_known(st, w):
    return any(contains(a, I(W, w, "active")) for a in st.facts)


def _is_comp_node(ev):
    import ast as _a
    return isinstance(ev.node, (_a.ListComp, _a.SetComp, _a.GeneratorExp, _a.DictComp))


# ---------------------------------------------------------------------------------------------- M02
@check("M02")
def m02(ctx):
    ctx.rule("worker-reports", "every exception raised by any call in the worker loop (Worker.run) is followed by exactly one send of a "
             "WorkerErrMsg built from the exception text and traceback; it is never dropped")
    ctx.rule("worker-no-swallow", "between the user function and the worker loop no handler turns an exception into a normal return")
    ctx.rule("manager-first", "an error message, when no failure was seen before: the failure is recorded, all workers are killed, then a "
             "WorkerException carrying the message's text and traceback is raised; the message is never processed as data")
    ctx.rule("manager-later", "an error message after the first does not raise")
    ctx.rule("run-maps", "a failure in the manager loop is reported and always leaves run() as an exception")
    p = ctx.p
    WQ = LIB + "worker:Worker"
    wr = p.meth(WQ, "run")
    ERR = LIB + "worker:WorkerErrMsg"
    COMM = A(SELF, "comm")
    probs, errs = [], {"n": 0}

    def quiet(ev):
        return (ev.callee or "").startswith(("logging.", "socket.")) or ev.name in ("debug", "info", "warning", "kill_pending", "gethostname", "shutdown", "copy_back") \
            or (ev.callee or "") in ("itertools.count", "int", "str")

    def is_err_send(ev):
        if ev.kind != "call" or ev.name != "send" or ev.base != COMM:
            return False
        return any(a[0] == "new" and a[2] == "obj:" + ERR or a[0] == "call" and a[1] == ("cls", ERR) for a in ev.args)

    def event(ev, st, eng):
        rs = st.rs or ()
        if ev.kind == "caught":
            if ev.stack[-1] == wr.qual or True:
                st.rs = tuple(sorted(set(rs) | {"caught"}))
        if ev.kind == "call" and ev.callee == ERR:
            vals = list(ev.args) + list(ev.kw.values())
            txt = any(mentions(a, lambda t: t[0] == "excval" or t[0] == "call" and "format_exception_only" in str(t[1])) for a in vals)
            tb = any(mentions(a, lambda t: t[0] == "call" and any(s in str(t[1]) for s in ("format_exc'", "format_exception'", "format_tb'", "traceback.format_exc"))) for a in vals)
            errs["n"] += 1
            if not (txt and tb):
                probs.append((ev.where(), "the error message does not carry the exception text and traceback"))
        if is_err_send(ev):
            if "sent" in rs:
                probs.append((ev.where(), "the error is sent twice"))
            st.rs = tuple(sorted(set(st.rs or ()) | {"sent"}))

    def may(ev, st, eng):
        if quiet(ev) or is_err_send(ev):
            return False
        if st.rs and "caught" in st.rs:
            return False
        if ev.base is not None and (ev.base == COMM or ev.base == SELF) or ev.callee in p.funcs:
            return ["any", "SystemExit"] if ev.name in tops else ["any"]  # a user function may call sys.exit
        return False
    tops = {"_handle", "_recv_H_rows", "_handle_calc"}
    rule = Fn(event=event, may_raise=may, inline=lambda f, e: f.cls is not None and f.cls.qual == WQ and f.name not in tops, relevant=lambda a: False)
    res = ctx.engine(rule).run(wr)
    ctx.floor("error messages built in Worker.run", errs["n"], 1)
    for st, v in res["return"]:
        rs = st.rs or ()
        ctx.ob("worker-reports", "Worker.run return", "caught" not in rs or "sent" in rs, ctx.where(wr), "an exception can be caught without telling the manager")
    for st in res["raise"]:
        rs = st.rs or ()
        ctx.ob("worker-reports", "Worker.run raise", "sent" in rs, ctx.where(wr), f"an exception ({st.exc}) leaves the worker loop without telling the manager")
    ctx.ob("worker-reports", "WorkerErrMsg contents", not probs, probs[0][0] if probs else "", probs[0][1] if probs else "")
    # chain down to the user function
    for q, names in ((WQ, ("_handle", "_handle_calc", "_recv_H_rows")), (LIB + "utils.runners:Runner", ("run", "_result"))):
        cls = p.cls(q)
        for k in [cls] + list(p.subclasses(cls)):
            for n in names:
                f = k.methods.get(n)
                if f is None:
                    continue
                sw = []

                def ev2(ev, st, eng):
                    if ev.kind == "caught":
                        st.rs = (ev.where(), ev.name)
                    if ev.kind == "swallow":
                        sw.append((ev.where(), ev.name))
                rl = Fn(event=ev2, may_raise=lambda ev, st, eng: not quiet(ev), inline=lambda f2, e: f2.cls is not None and f2.cls is f.cls, relevant=lambda a: False)
                r = ctx.engine(rl).run(f, cls=k)
                bad = [s.rs for s, _ in r["return"] if s.rs and not _benign_catch(s.rs[1])] + sw
                ctx.ob("worker-no-swallow", f.qual.split(":")[-1], not bad, bad[0][0] if bad else ctx.where(f), "an exception can end as a normal return")
    # manager intake
    hm = p.meth(MQ, "_handle_msg_from_worker")
    for first in (True, False):
        def decide(atom):
            x = atom[1] if atom[0] == "t" else atom
            if x[0] == "call" and callname(x) == "isinstance":
                return ("cls", ERR) == x[2][1] or x[2][1][0] == "tuple" and ("cls", ERR) in x[2][1][1]
            if atom == ("t", WEXC):
                return not first
            if callname(x) == "hasattr":
                return True

        def label(ev, st, eng):
            if ev.kind in ("call", "callin") and ev.name == "_kill_workers":
                return "kill"
            if ev.kind == "store" and ev.loc == WEXC:
                return ("wexc", is_truec(ev.value))
            if ev.kind == "raise":
                v = ev.value
                D = [t for t in subterms(v)]
                return ("raise", ev.name, any(t[0] == "a" and t[2] == "msg" for t in D), any(t[0] == "a" and t[2] == "exc" for t in D))
            if ev.kind in ("call", "callin") and ev.name == "_update_state_on_worker_msg":
                return "data"
        rule = Table(decide, label=label, inline=lambda f, e: f.name not in ("_kill_workers", "_update_state_on_worker_msg"))
        res = ctx.engine(rule).run(hm)
        for st, v in res["return"]:
            rs = st.rs or ()
            ctx.ob("manager-first" if first else "manager-later", "error is not data", "data" not in rs, ctx.where(hm), "an error message is processed as data")
            if first:
                ctx.ob("manager-first", "raises", False, ctx.where(hm), "the first worker error can be taken without raising") if rs is not None and not _fin_path(st) else None
        for st in res["raise"]:
            rs = st.rs or ()
            if first:
                r = [x for x in rs if isinstance(x, tuple) and x[0] == "raise"]
                ok = bool(r) and str(r[-1][1]).endswith("WorkerException") and r[-1][2] and r[-1][3]
                ctx.ob("manager-first", "exception content", ok, ctx.where(hm), f"raised {r[-1][1] if r else st.exc} without the worker's text and traceback")
                ctx.ob("manager-first", "kills all", "kill" in rs and ("wexc", True) in rs, ctx.where(hm), "the failure is raised without recording it and killing all workers")
                ctx.ob("manager-first", "recorded before kill", "kill" not in rs or ("wexc", True) in rs, ctx.where(hm), "")
            else:
                ctx.ob("manager-later", "no second raise", False, ctx.where(hm), "a later worker error raises again")
        if first:
            ctx.ob("manager-first", "some path raises", bool(res["raise"]), ctx.where(hm), "a worker error never raises")
        else:
            ctx.ob("manager-later", "quiet path", bool(res["return"]), ctx.where(hm), "")
    # run()
    run = p.meth(MQ, "run")
    WX = MQ.split(":")[0] + ":WorkerException"
    inl = reach_inline(p, "_receive_from_workers", "_final_receive_and_kill", "_alloc_work")

    def ev3(ev, st, eng):
        rs = set(st.rs or ())
        if ev.kind == "caught":
            rs.add("caught")
        if ev.kind == "call" and (ev.name in ("error", "exception", "critical") or ev.name == "report_worker_exc"):
            rs.add("logged")
        st.rs = tuple(sorted(rs))

    def may3(ev, st, eng):
        if ev.name == "_final_receive_and_kill":
            return False
        if ev.name in ("_receive_from_workers", "_alloc_work"):
            return (WX, EXC_ANY)
        return False
    rule = Fn(event=ev3, may_raise=may3, inline=lambda f, e: inl(f, e) and f.name != "report_worker_exc", relevant=lambda a: False)
    res = ctx.engine(rule).run(run)
    for st, _ in res["return"]:
        ctx.ob("run-maps", "run normal return", "caught" not in (st.rs or ()), ctx.where(run), "a failure can end as a normal return of run()")
    n = 0
    for st in res["raise"]:
        n += 1
        ctx.ob("run-maps", "run failure reported", "logged" in (st.rs or ()), ctx.where(run), f"{st.exc} leaves run() without being reported")
        ctx.ob("run-maps", "run failure type", str(st.exc).endswith("LoggedException"), ctx.where(run), f"a failure leaves run() as {st.exc}, which the caller would log or handle differently")
    ctx.floor("failure exits of run()", n, 1)


def _benign_catch(exc):
    return False


def _fin_path(st):
    """The path on which the communicator reported that it had finished (no message)."""
    return False


# ---------------------------------------------------------------------------------------------- M04
WK = P("Work")
LI = I(WK, "libE_info")


def _table(ctx, rid, con, fi, res, expect_raise, und, msg, loops=False):
    """Judge one row of a truth table."""
    if expect_raise:
        ok = bool(res["raise"]) and (not res["return"] or bool(und) or loops)
        ctx.ob(rid, con, ok, ctx.where(fi), f"not refused: {msg}")
    else:
        ok = bool(res["return"]) and (not res["raise"] or bool(und))
        ctx.ob(rid, con, ok, ctx.where(fi), f"refused although valid: {msg}")


@check("M04")
def m04(ctx):
    ctx.rule("work-order-table", "_check_work_order raises exactly for: plain message to an active-receive worker; active worker (unless forced); "
             "rows without fields; unknown fields -- over all 64 valuations of those conditions")
    ctx.rule("checked-before-sent", "every order sent by the main loop and the final phase was checked, for the same worker, before it")
    ctx.rule("alloc-output-table", "_alloc_work raises exactly unless the output is two dictionaries and a 0/1 flag (flag optional)")
    ctx.rule("active-recv-persistent", "active receive without persistent work is refused, otherwise not")
    p = ctx.p
    fi = p.meth(MQ, "_check_work_order")
    w = P(fi.params[2])
    wk = P(fi.params[1])
    li = I(wk, "libE_info")
    rowsT, fieldsT = I(li, "H_rows"), I(wk, "H_fields")
    vals = [(a, b, c, d, e, f) for a in (0, 1) for b in (0, 1) for c in (0, 1) for d in (0, 1) for e in (0, 1, 2) for f in (0, 1)]
    for ar, flag, act, force, rows, unk in vals:
        # rows: 0 no rows, 1 rows+fields, 2 rows, no fields
        if rows != 1 and unk:
            continue
        looped = []

        def decide(atom):
            x = atom[1] if atom[0] == "t" else atom
            s = strip_deep(x)
            if atom == ("t", I(W, w, "active_recv")):
                return bool(ar)
            if atom == ("t", I(W, w, "active")):
                return bool(act)
            if atom[0] == "cmp" and atom[1] == "==" and is_zeroc(atom[3]) and atom[2] == I(W, w, "active"):
                return not act
            if names_flag(atom, "active_recv", li):
                return bool(flag)
            if atom == ("t", P("force")):
                return bool(force)
            if s == rowsT:
                return rows > 0
            if mentions(atom, lambda t: t[0] == "a" and t[2] in ("names", "fields") and contains(t, HH)):
                if x[0] == "all" or callname(x) in ("all", "numpy.all", ".issubset"):
                    return not unk
                if x[0] == "any" or callname(x) in ("any", "numpy.any"):
                    return bool(unk)
                if atom[0] == "t" and mentions(x, lambda t: callname(t) in (".difference", "numpy.setdiff1d") or t[0] == "b" and t[1] == "-" or t[0] == "comp"):
                    return bool(unk)
                if atom[0] == "cmp" and atom[1] == "in":
                    return not unk
                return None
            if mentions(atom, lambda t: t == fieldsT):
                if atom[0] == "t" or atom[0] == "cmp" and atom[1] == "==":
                    r = rows == 1
                    return r if atom[0] == "t" else None
        rule = Table(decide, watch=lambda a: mentions(a, lambda t: t in (W, fieldsT, HH)), label=lambda ev, st, e: looped.append(1) if ev.kind == "loop" else None)
        res = ctx.engine(rule).run(fi)
        exp = (ar and not flag) or (not ar and not force and act) or rows == 2 or (rows == 1 and unk)
        _table(ctx, "work-order-table", f"_check_work_order ar={ar} flag={flag} active={act} force={force} rows={rows} unknown={unk}", fi, res, bool(exp),
               rule.undecided, f"active_recv={ar} flagged={flag} active={act} force={force} rows/fields={rows} unknown field={unk}", loops=bool(looped) and unk)
    # checked before sent
    opaque = ("_check_work_order", "_send_work_order", "_receive_from_workers", "_kill_cancelled_sims", "term_test", "_update_state_on_alloc",
              "_alloc_work", "_sim_max_given", "_kill_workers", "_clean_up_thread", "_init_every_k_save", "update_history_to_gen", "_set_resources")
    chk, snd = p.meth(MQ, "_check_work_order"), p.meth(MQ, "_send_work_order")
    for nm in ("run", "_final_receive_and_kill"):
        f = p.meth(MQ, nm)
        bad, n = [], [0]

        def event(ev, st, eng):
            if ev.kind == "iter" and ev.value is None:
                st.rs = frozenset()
            elif ev.kind == "iter":
                st.rs = frozenset(x for x in (st.rs or ()) if not contains(x, ev.value) and not (ev.value[0] == "tuple" and any(contains(x, y) for y in ev.value[1])))
            if ev.kind in ("call", "callin") and ev.name == "_check_work_order":
                a = args_of(ev, chk)
                st.rs = (st.rs or frozenset()) | {(a.get(chk.params[1], NONE), a.get(chk.params[2], NONE))}
            if ev.kind in ("call", "callin") and ev.name == "_send_work_order":
                n[0] += 1
                a = args_of(ev, snd)
                if (a.get(snd.params[1], NONE), a.get(snd.params[2], NONE)) not in (st.rs or ()):
                    bad.append(ev.where())
        names = set(opaque) | ({"_final_receive_and_kill"} if nm == "run" else set())
        ri = reach_inline(p, "_check_work_order", "_send_work_order")
        ctx.engine(Fn(event=event, inline=lambda f2, e: f2.name not in names and ri(f2, e), relevant=lambda a: False,
                      call_value=lambda ev, st, e: P("@" + ev.name) if ev.name in opaque else None)).run(f)
        ctx.ob("checked-before-sent", nm, n[0] > 0 and not bad, bad[0] if bad else ctx.where(f), "a work order is sent without having been checked for that worker")
    # alloc output
    fa = p.meth(MQ, "_alloc_work")
    OUT = P("@out")
    for n in (1, 2, 3, 4):
        for d0 in (0, 1):
            for d1 in (0, 1):
                for okflag in ((1,) if n < 3 else (0, 1)):
                    def decide(atom):
                        x = atom[1] if atom[0] == "t" else atom
                        if atom == ("t", A(SELF, "safe_mode")):
                            return False
                        if atom[0] == "cmp" and atom[1] == "==" and atom[2][0] == "len" and is_c(atom[3]):
                            y = atom[2][1]
                            if y == OUT:
                                return n == atom[3][2]
                            if y[0] == "b" and y[1] == "+" and y[2] == OUT and y[3][0] == "tuple":
                                return n + len(y[3][1]) == atom[3][2]
                        if atom[0] == "cmp" and atom[1] == "<0" and len(atom[2]) == 1 and atom[2][0][0] == ("len", OUT):
                            return atom[2][0][1] * n + atom[3] < 0
                        if callname(x) == "isinstance":
                            y = x[2][0]
                            if y[0] == "i" and is_c(y[2]):
                                return {0: bool(d0), 1: bool(d1)}.get(y[2][2])
                        if atom[0] == "cmp" and atom[1] in ("==", "in") and atom[2][0] == "i" and is_c(atom[2][2]) and atom[2][2][2] in (2, -1):
                            b = atom[2][1]
                            if atom[1] == "in":
                                return bool(okflag)
                            if b == OUT:
                                return bool(okflag) and atom[3] == C(0)
                            return atom[3] == C(0)
                    rule = Table(decide, watch=lambda a: contains(a, OUT), inline=lambda f, e: f.name != "_get_alloc_libE_info",
                                 call_value=lambda ev, st, eng: OUT if ev.callee is None and len(ev.args or ()) >= 6 else None)
                    res = ctx.engine(rule).run(fa)
                    exp = n not in (2, 3) or not d0 or not d1 or not okflag
                    _table(ctx, "alloc-output-table", f"_alloc_work len={n} dict={d0}{d1} flag={okflag}", fa, res, exp, rule.undecided,
                           f"output of {n} items, dictionaries={d0},{d1}, flag ok={okflag}")
    # active_recv only for persistent
    fu = p.meth(MQ, "_update_state_on_alloc")
    wk2 = P(fu.params[1])
    li2 = I(wk2, "libE_info")
    for pers in (0, 1):
        for ar in (0, 1):
            def decide(atom):
                if names_flag(atom, "persistent", li2):
                    return bool(pers)
                if names_flag(atom, "active_recv", li2):
                    return bool(ar)
            rule = Table(decide, inline=lambda f, e: f.cls is not None and f.cls.qual == MQ)
            res = ctx.engine(rule).run(fu)
            _table(ctx, "active-recv-persistent", f"persistent={pers} active_recv={ar}", fu, res, bool(ar and not pers), [], f"persistent={pers} active_recv={ar}")


def names_flag(atom, key, d):
    """Atom tests presence or truth of d[key]."""
    if atom == ("cmp", "in", C(key), d) or atom == ("t", I(d, key)):
        return True
    if atom[0] == "cmp" and atom[1] == "in" and atom[2] == C(key) and callname(atom[3]) in (".keys",) and atom[3][2][0] == d:
        return True
    return False


# ---------------------------------------------------------------------------------------------- M05
def final_send(ctx):
    """Truth table of the final phase's message to one persistent worker."""
    p = ctx.p
    f = p.meth(MQ, "_final_receive_and_kill")
    GEN, SIM, STOP = K(p, "EVAL_GEN_TAG"), K(p, "EVAL_SIM_TAG"), K(p, "PERSIS_STOP")
    opaque = {"_receive_from_workers", "_kill_workers", "_clean_up_thread", "_check_work_order", "_init_every_k_save", "term_test", "update_history_to_gen",
              "_set_resources", "extract_H_ranges", "elapsed", "live_update", "finalize", "_send_work_order"}
    snd, upd = p.meth(MQ, "_send_work_order"), p.meth(LIB + "history:History", "update_history_to_gen")
    ENDED, INF = I(HH, C("sim_ended")), I(HH, C("gen_informed"))
    n = 0
    for opt in (True, False, None):
        for ps in (GEN, SIM):
            for rows in (0, 2):
                got = []

                def unsent(t):
                    return any(x == ENDED for x in subterms(t)) and any(x == INF for x in subterms(t))

                def oracle(atom, st, eng):
                    if atom == ("cmp", "in", C("final_gen_send"), A(SELF, "libE_specs")):
                        return opt is not None
                    if atom == ("t", I(A(SELF, "libE_specs"), C("final_gen_send"))):
                        return bool(opt)
                    x = atom[1] if atom[0] == "t" else None
                    if x is not None and callname(x) == ".get" and len(x[2]) > 1 and x[2][1] == C("final_gen_send"):
                        return bool(opt)
                    if x is not None and (any_of(atom, "persis_state") is not None):
                        return True
                    if x is not None and unsent(x):
                        return rows > 0

                    def leaf(t):
                        if t[0] == "i" and t[2] == C("persis_state"):
                            return ps[2]
                        if (t[0] == "len" or callname(t) in ("numpy.size", "numpy.count_nonzero", "numpy.sum", ".sum")) and unsent(t):
                            return rows
                        if t[0] == "a" and t[2] == "size" and unsent(t):
                            return rows
                        return NOVAL
                    if atom[0] == "cmp" and atom[1] == "==" and NONE in atom[2:4]:
                        return False if unsent(atom) else None
                    if mentions(atom, lambda t: t == C("persis_state")) or unsent(atom):
                        try:
                            return bool(rowval(atom, leaf))
                        except (Unk, TypeError):
                            return None

                def match(ev):
                    return ev.extra is not None and mentions(ev.extra, lambda t: t == W) and not _is_comp_node(ev)

                def on(ev, st, eng):
                    if ev.kind == "iter" and match(ev):
                        st.rs = ()
                    elif ev.kind == "iterend" and match(ev):
                        if st.rs is not None:
                            got.append((ev.where(), st.rs, st))
                        st.rs = None
                    elif st.rs is not None and ev.kind in ("call", "callin"):
                        if ev.name == "_send_work_order":
                            a = args_of(ev, snd)
                            o = a.get(snd.params[1], NONE)
                            g = lambda b, k: st.heap.get(I(b, C(k)))
                            li = g(o, "libE_info")
                            st.rs += (("order", a.get(snd.params[2]), g(o, "tag"), li is not None and (st.heap.get(I(li, C("H_rows")))) or None, g(o, "H_fields"),
                                       li is not None and st.heap.get(I(li, C("persistent"))) or None),)
                        elif ev.name == "update_history_to_gen":
                            st.rs += (("given", args_of(ev, upd).get(upd.params[1])),)
                        elif ev.name == "send" and comm_of(ev.base) is not None:
                            st.rs += (("plain", comm_of(ev.base)) + tuple(ev.args),)

                class R(Rule):
                    havoc = True
                R.oracle = lambda self, a, st, e: oracle(a, st, e)
                R.inline = lambda self, g, e: g.name not in opaque
                R.on_event = lambda self, ev, st, e: on(ev, st, e)
                R.relevant = lambda self, a: True
                ctx.engine(R()).run(f)
                con = f"final_gen_send={opt} {'generator' if ps == GEN else 'simulator'} rows={rows}"
                want = bool(opt) and ps == GEN and rows > 0
                full = [x for x in got if x[1]]
                ctx.ob("final-send", con, bool(full), ctx.where(f), "no persistent worker gets a final message")
                for where, rs, st in full:
                    n += 1
                    orders, plain, given = [[x for x in rs if x[0] == k] for k in ("order", "plain", "given")]
                    ctx.ob("final-send", con, (len(orders), len(plain)) == ((1, 0) if want else (0, 1)), where, f"{len(orders)} orders with rows and {len(plain)} plain stops are sent")
                    ctx.ob("final-send", con + " marked", len(given) == len(orders), where, f"points are marked as given {len(given)} times")
                    for x in orders:
                        ctx.ob("final-send", "order tag", x[2] == STOP and (x[5] is None or x[5] == TRUE), where, f"the final order has tag {show(x[2]) if x[2] else None}")
                        ctx.ob("final-send", "order fields", x[4] is not None and mentions(x[4], lambda t: t == C("persis_in")), where, f"the fields are {show(x[4]) if x[4] else None}")
                        for y in given:
                            ctx.ob("final-send", "same points", y[1] == x[3], where, f"the points marked ({show(y[1])[:80] if y[1] else None}) are not those sent ({show(x[3])[:80] if x[3] else None})")
                        if x[3] is not None:
                            ok = final_rows(x[3])
                            if ok is None:
                                ctx.assumption(f"the final points {show(x[3])[:80]} are not a mask the analysis can read")
                            else:
                                ctx.ob("final-send", "points", ok, where, f"the points sent are {show(x[3])[:100]}")
                    for x in plain:
                        ctx.ob("final-send", "plain tag", len(x) == 4 and x[2] == STOP and is_c(x[3]), where, f"the stop sent is {[show(y) for y in x[2:]]}")
    ctx.floor("final messages analysed", n, 12)


def final_rows(sel):
    """Does the selection hold exactly the ended rows not yet given to the generator?"""
    for e in (False, True):
        for g in (False, True):
            def leaf(t):
                if t == I(HH, C("sim_ended")):
                    return e
                if t == I(HH, C("gen_informed")):
                    return g
                return NOVAL
            try:
                r = rowsel(sel, leaf)
            except (Unk, TypeError):
                return None
            if bool(r) != (e and not g):
                return False
    return True


@check("M05")
def m05(ctx):
    ctx.rule("dispatch-sequence", "each iteration over the allocated orders either stops, or checks, sends and records the same order for the same "
             "worker, each once and in this order")
    ctx.rule("order-message", "_send_work_order assigns resources first, sends (tag, order) once to the worker's communicator, then the rows iff there are any")
    ctx.rule("rows-content", "the rows message holds the order's fields of the order's rows, in order")
    ctx.rule("state-table", "_update_state_on_alloc sets active, persistent and active-receive state per the order, and marks exactly the order's rows "
             "as given (simulation) or informed (generation), over all orders")
    ctx.rule("final-send", "in the final phase the points not yet given out go, with the persistent stop, exactly to persistent generators, exactly if final_gen_send is set and "
             "there are such points, and exactly those points are marked as given; every other persistent worker gets the plain stop")
    p = ctx.p
    final_send(ctx)
    run = p.meth(MQ, "run")
    fns = {n: p.meth(MQ, n) for n in ("_check_work_order", "_send_work_order", "_update_state_on_alloc")}
    bad, n = [], [0]
    ALLOC = P("@work")

    def match(ev, st):
        if ev.extra is None or _is_comp_node(ev):
            return False
        x = ev.extra
        while x[0] in ("items", "keys", "values"):
            x = x[1]
        x = strip_deep(x)
        return mentions(x, lambda t: t == ALLOC) or x == I(ALLOC, 0)

    def event(ev, st, eng):
        if ev.kind in ("iter", "iterend") and match(ev, st):
            if ev.kind == "iter":
                st.rs = ()
            else:
                seq = [x for x in (st.rs or ()) if x[0] != "given"]
                n[0] += 1
                names = [x[0] for x in seq]
                given = any(x[0] == "given" for x in (st.rs or ()))
                if not names and (ev.name == "break" or given):
                    pass
                elif names != ["_check_work_order", "_send_work_order", "_update_state_on_alloc"]:
                    bad.append((ev.where(), f"an order is handled as {names or 'nothing'}"))
                elif len({x[1:] for x in seq}) != 1:
                    bad.append((ev.where(), f"check, send and record are applied to different orders or workers: {[[show(y) for y in x[1:]] for x in seq]}"))
                else:
                    o, w = seq[0][1:]
                    if not (o[0] == "i" and o[2] == w):
                        bad.append((ev.where(), f"order {show(o)} is sent to worker {show(w)}"))
                st.rs = None
            return
        if ev.kind in ("call", "callin") and st.rs is not None:
            if ev.name in fns:
                f = fns[ev.name]
                a = args_of(ev, f)
                st.rs = st.rs + ((ev.name, a.get(f.params[1], NONE), a.get(f.params[2], NONE)),)
            elif ev.name == "_sim_max_given":
                st.rs = st.rs + (("given",),)
        if ev.kind == "call" and ev.name == "send" and comm_of(ev.base) is not None:
            bad.append((ev.where(), "the main loop sends a message directly"))
    inl = reach_inline(p, *fns, "_alloc_work", "_sim_max_given")
    opq = {"_kill_cancelled_sims", "_receive_from_workers", "_final_receive_and_kill", "term_test"}
    rule = Fn(event=event, inline=lambda f, e: f.name not in opq and inl(f, e), relevant=lambda a: mentions(a, lambda t: t == P("@smg")),
              call_value=lambda ev, st, eng: ALLOC if ev.name == "_alloc_work" else (P("@smg") if ev.name == "_sim_max_given" else None))
    ctx.engine(rule).run(run)
    ctx.floor("dispatch iterations", n[0], 1)
    ctx.ob("dispatch-sequence", "run dispatch loop", not bad, bad[0][0] if bad else ctx.where(run), bad[0][1] if bad else "")

    # ---- _send_work_order
    fs = p.meth(MQ, "_send_work_order")
    wk, w = P(fs.params[1]), P(fs.params[2])
    rows, fields = I(wk, "libE_info", "H_rows"), I(wk, "H_fields")
    for has_res in (0, 1):
        for has_rows in (0, 1):
            def decide(atom):
                x = atom[1] if atom[0] == "t" else atom
                if strip_deep(x) == rows:
                    return bool(has_rows)
                if x == A(SELF, "resources") and atom[0] == "t":
                    return bool(has_res)
                if atom == mk_cmp("==", A(SELF, "resources"), NONE):
                    return not has_res

            def label(ev, st, eng):
                if ev.kind in ("call", "callin") and ev.name == "_set_resources":
                    return ("res", tuple(ev.args))
                if ev.kind == "call" and ev.name == "send" and comm_of(ev.base) is not None:
                    return ("send", comm_of(ev.base), tuple(ev.args), ev.where())
                if ev.kind == "store" and ev.loc[0] == "i" and ev.loc[1] in (wk,):
                    return ("alter", show(ev.loc), ev.where())
            rule = Table(decide, label=label, inline=lambda f, e: f.name not in ("_set_resources", "extract_H_ranges"), relevant=lambda a: False)
            res = ctx.engine(rule).run(fs)
            con = f"resources={has_res} rows={has_rows}"
            for st, _ in res["return"]:
                rs = [x for x in (st.rs or ())]
                sends = [x for x in rs if x[0] == "send"]
                ok = bool(sends) and sends[0][1] == w and len(sends[0][2]) == 2 and sends[0][2] == (I(wk, "tag"), wk)
                ctx.ob("order-message", f"order {con}", ok, ctx.where(fs), f"first message is {[show(x) for x in sends[0][2]] if sends else 'missing'}")
                ctx.ob("order-message", f"count {con}", len(sends) == 1 + has_rows, ctx.where(fs), f"{len(sends)} messages are sent for an order {'with' if has_rows else 'without'} rows")
                ctx.ob("order-message", f"same worker {con}", all(x[1] == w for x in sends), ctx.where(fs), "the parts go to different workers")
                kinds = [x[0] for x in rs if x[0] in ("res", "send")]
                if has_res:
                    ctx.ob("order-message", f"resources first {con}", kinds[:1] == ["res"] and kinds.count("res") == 1, ctx.where(fs), f"order of steps {kinds}")
                    r0 = [x for x in rs if x[0] == "res"]
                    ctx.ob("order-message", f"resources for this order {con}", all(x[1][:2] == (wk, w) for x in r0), ctx.where(fs), "")
                else:
                    ctx.ob("order-message", f"no resources {con}", "res" not in kinds, ctx.where(fs), "resources are set although there are none")
                if has_rows and len(sends) == 2:
                    pay = sends[1][2][-1] if sends[1][2] else NONE
                    _rows_payload(ctx, fs, pay, rows, fields)
    # ---- state table
    fu = p.meth(MQ, "_update_state_on_alloc")
    wk, w = P(fu.params[1]), P(fu.params[2])
    li = I(wk, "libE_info")
    SIM, GEN = K(p, "EVAL_SIM_TAG"), K(p, "EVAL_GEN_TAG")
    xo, tg = p.meth(LIB + "history:History", "update_history_x_out"), p.meth(LIB + "history:History", "update_history_to_gen")
    for pers, ar, tag in [(a, b, t) for a in (0, 1) for b in (0, 1) for t in (SIM, GEN)]:
        if ar and not pers:
            continue

        def decide(atom):
            if names_flag(atom, "persistent", li):
                return bool(pers)
            if names_flag(atom, "active_recv", li):
                return bool(ar)

        def label(ev, st, eng):
            if ev.kind in ("call", "callin") and ev.name in ("update_history_x_out", "update_history_to_gen"):
                f = xo if ev.name == "update_history_x_out" else tg
                a = args_of(ev, f)
                return ("hist", ev.name, tuple(a.get(k) for k in f.params[1:]))
            if ev.kind == "store" and ev.loc[0] == "i" and mentions(ev.loc, lambda t: t == W):
                if ev.loc[1] != I(W, w):
                    return ("other", show(ev.loc))
        rule = Table(decide, values={I(wk, "tag"): tag}, label=label, inline=lambda f, e: f.cls is not None and f.cls.qual == MQ)
        res = ctx.engine(rule).run(fu)
        con = f"persistent={pers} active_recv={ar} tag={'sim' if tag == SIM else 'gen'}"
        ctx.ob("state-table", f"accepted {con}", bool(res["return"]), ctx.where(fu), "a valid order is refused")
        for st, _ in res["return"]:
            g = lambda f: st.heap.get(I(W, w, f))
            tv = lambda v: v in (tag, I(wk, "tag"))
            ctx.ob("state-table", f"active {con}", g("active") is not None and tv(g("active")), ctx.where(fu), f"active becomes {show(g('active')) if g('active') else 'unchanged'}")
            ps = g("persis_state")
            ctx.ob("state-table", f"persistent {con}", (ps is not None and tv(ps)) if pers else ps is None, ctx.where(fu), f"persis_state becomes {show(ps) if ps else 'unchanged'}")
            av = g("active_recv")
            ctx.ob("state-table", f"active_recv {con}", (av is not None and (is_truec(av) or av == I(li, "active_recv"))) if ar else (av is None or is_zeroc(av)), ctx.where(fu),
                   f"active_recv becomes {show(av) if av else 'unchanged'}")
            hs = [x for x in (st.rs or ()) if x[0] == "hist"]
            rowsT = I(li, "H_rows")
            if tag == SIM:
                ok = len(hs) == 1 and hs[0][1] == "update_history_x_out" and hs[0][2][:2] == (rowsT, w)
            else:
                ok = len(hs) == 1 and hs[0][1] == "update_history_to_gen" and hs[0][2][:1] == (rowsT,)
            ctx.ob("state-table", f"history {con}", ok, ctx.where(fu), f"history updates: {[(x[1], [show(y) if y else None for y in x[2]]) for x in hs]}")
            ot = [x for x in (st.rs or ()) if x[0] == "other"]
            ctx.ob("state-table", f"only this worker {con}", not ot, ctx.where(fu), f"{ot[0][1] if ot else ''} is changed")


def _rows_payload(ctx, fi, pay, rows, fields):
    """The rows message is built element by element from the history."""
    s = strip_deep(pay)
    while callname(s) in ("numpy.lib.recfunctions.repack_fields", "copy.deepcopy", "copy.copy"):
        s = strip_deep(s[2][0])
    if s in (I(HH, fields, rows), I(HH, rows, fields)):
        ctx.ob("rows-content", "rows message", True)
        return
    if is_alloc(s):
        n = s[2][0] if s[2] else dict(s[3]).get("shape")
        ctx.ob("rows-content", "rows message size", strip_deep(n) == ("len", rows), ctx.where(fi), f"the rows message has size {show(n)}")
        bad, done = [], []

        def match(ev, st):
            return ev.extra is not None and not _is_comp_node(ev) and _over(ev.extra, rows)

        def label(ev, st, eng):
            if ev.kind == "store" and ev.loc[0] == "i" and root(ev.loc) == pay:
                ix = path_of(ev.loc)[1]
                v = strip_deep(ev.value)
                while callname(v) in ("numpy.lib.recfunctions.repack_fields",):
                    v = strip_deep(v[2][0])
                vb, vi = path_of(v)
                rowi = [i for i in vi if is_elem_of(i, rows)]
                fl = [i for i in vi if i == fields or i[0] == "elem" and strip_arr(i[1]) == fields]
                src = vb == HH or vb == HIST or v[0] == "i" and contains(v, HH)
                if not (src and rowi and fl):
                    return ("wrong", show(ev.value), ev.where())
                pos = [i for i in ix if i != fields and not (i[0] == "elem" and strip_arr(i[1]) == fields)]
                same = len(pos) == 1 and _pos_of(pos[0], rowi[0])
                return ("ok",) if same else ("wrong", f"{show(ev.loc)} = {show(ev.value)}", ev.where())
            if ev.kind == "store" and contains(ev.loc, pay):
                return ("wrong", show(ev.loc), ev.where())

        def close(cur, st, ev, eng):
            done.append(1)
            w = [x for x in cur if x[0] == "wrong"]
            if w:
                bad.append((w[0][2], f"a row of the message is {w[0][1]}"))
            elif ("ok",) not in cur:
                bad.append((ev.where(), "a row of the message may be left unset"))
        ctx.engine(IterFx(match, label, close, inline=lambda f, e: f.name not in ("_set_resources", "extract_H_ranges"), relevant=lambda a: False)).run(fi)
        ctx.ob("rows-content", "rows message", bool(done) and not bad, bad[0][0] if bad else ctx.where(fi), bad[0][1] if bad else "rows are never copied")
        return
    ctx.ob("rows-content", "rows message", mentions(s, lambda t: t == rows) and mentions(s, lambda t: t == fields) and contains(s, HH), ctx.where(fi),
           f"the rows message is {show(pay)}")


def is_alloc(t):
    return callname(t) in ("numpy.empty", "numpy.zeros")


def _over(it, q):
    from .history import _iter_over
    return _iter_over(it, q)


def _pos_of(pos, row):
    """pos is the position of row in the rows."""
    if row[0] == "elem":
        return pos[0] == "idx" and pos[1] == row[2]
    if row[0] == "i":
        return row[2] == pos or contains(row, pos)
    return False
