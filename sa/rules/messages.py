"""Message numbers and two-part framing (C03, C04)."""
import ast

from . import check
from .common import *  # noqa
from .comms import Sim, exc_of, isinst, vararg
from .worker import COMM, INFO, MG, PS, ROWS, TAG, WK, WORK, contains_attr, describe, key_decide, run_scenarios, worker_types

EX = LIB + "executors.executor:Executor"
TAGS = ("EVAL_SIM_TAG", "EVAL_GEN_TAG", "STOP_TAG", "PERSIS_STOP")


def table(ctx, m, name):
    n = m.assigns.get(name)
    if n is None:
        raise AnalysisBroken(f"message_numbers.{name} is gone")
    try:
        return ctx.p.const(m, n)
    except ValueError:
        ctx.assumption(f"message_numbers.{name} is computed; its entries are not decided")
        return None


@check("C03", "constant evaluation of the message tables, package-wide scan for redefinitions and aliases, truth tables of the manager's and executor's dispatch on every tag and status")
def c03(ctx):
    p = ctx.p
    ctx.rule("distinct", "no two message tags or calculation statuses have the same number")
    ctx.rule("status-text", "every calculation status has a description of its own, different from the others")
    ctx.rule("type-name", "every kind of work has its name")
    ctx.rule("runner", "simulation orders go to the simulator's runner, generator orders to the generator's, and both kinds are counted and have a type for empty input")
    ctx.rule("kill-signals", "the kill signals are exactly finish and kill, and every signal sent with a stop tag is one of them")
    ctx.rule("polling", "the executor's polling recognises every kill signal sent with the stop tag, reports it, and keeps it for the worker; nothing else counts as a kill")
    ctx.rule("one-meaning", "no module gives a tag, status or table another value")
    m = p.module(LIB + "message_numbers")
    vals, alias = {}, {}
    for name, node in m.assigns.items():
        if isinstance(node, ast.Name):
            alias[name] = node.id
            continue
        try:
            v = p.const(m, node)
        except ValueError:
            continue
        if isinstance(v, int) and not isinstance(v, bool):
            vals[name] = v
    ctx.floor("tags and statuses", len(vals), 12)
    for t in TAGS + ("UNSET_TAG", "MAN_SIGNAL_FINISH", "MAN_SIGNAL_KILL", "FINISHED_PERSISTENT_SIM_TAG", "FINISHED_PERSISTENT_GEN_TAG", "CALC_EXCEPTION"):
        K(p, t)
    names = sorted(vals)
    for i, a in enumerate(names):
        same = [b for b in names if b != a and vals[b] == vals[a]]
        ctx.ob("distinct", a, not same, m.path, f"{a} has the same number as {same}")
        ctx.ob("distinct", f"{a} number", not (a != "UNSET_TAG" and vals[a] == 0), m.path, f"{a} is 0, the number of 'not set' and of the manager's plain messages")
    st = table(ctx, m, "calc_status_strings")
    if st is not None:
        for a in names:
            if a not in TAGS:
                t = st.get(vals[a])
                ctx.ob("status-text", a, isinstance(t, str) and t != "", m.path, f"{a} has no description")
                ctx.ob("status-text", f"{a} own", list(st.values()).count(t) <= 1, m.path, f"another status also has the description {t!r}")
        node = m.assigns["calc_status_strings"]
        if isinstance(node, ast.Dict):
            ctx.ob("status-text", "one entry each", len(node.keys) == len(st), m.path, "two entries of the table have the same key")
        for key, words in (("CALC_EXCEPTION", ("xception",)), ("WORKER_DONE", ("ompleted",)), ("TASK_FAILED", ("ailed",)), ("UNSET_TAG", ("ot set",)),
                           ("WORKER_KILL_ON_TIMEOUT", ("imeout",)), ("WORKER_KILL_ON_ERR", ("rror",)), ("TASK_FAILED_TO_START", ("start",)),
                           ("MAN_SIGNAL_FINISH", ("inish",)), ("MAN_SIGNAL_KILL", ("anager", "kill")), ("WORKER_KILL", ("orker", "kill")),
                           ("FINISHED_PERSISTENT_SIM_TAG", ("sim",)), ("FINISHED_PERSISTENT_GEN_TAG", ("gen",))):
            if key in vals and isinstance(st.get(vals[key]), str):
                ctx.ob("status-text", f"{key} meaning", all(w in st[vals[key]] for w in words), m.path, f"{key} is described as {st[vals[key]]!r}")
    ty = table(ctx, m, "calc_type_strings")
    if ty is not None:
        for a, t in (("EVAL_SIM_TAG", "sim"), ("EVAL_GEN_TAG", "gen")):
            ctx.ob("type-name", a, ty.get(vals[a]) == t, m.path, f"work of kind {a} is called {ty.get(vals[a])!r}")
        ctx.ob("type-name", "PERSIS_STOP", isinstance(ty.get(vals["PERSIS_STOP"]), str), m.path, "a final order with rows has no name and cannot be sent")
    ks = table(ctx, m, "MAN_KILL_SIGNALS")
    sig = {vals["MAN_SIGNAL_FINISH"], vals["MAN_SIGNAL_KILL"]}
    if ks is not None:
        ctx.ob("kill-signals", "MAN_KILL_SIGNALS", set(ks) == sig and len(ks) == 2, m.path, f"the kill signals are {ks}")
    # ---- one meaning everywhere
    own = set(vals) | {"calc_status_strings", "calc_type_strings", "MAN_KILL_SIGNALS"}
    nsend = 0
    for mod in p.modules.values():
        if mod is m:
            # nothing rewrites the tables after they are made
            for n in ast.walk(mod.tree):
                if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and n.value.id in own:
                    ctx.ob("one-meaning", f"{n.value.id} changed", False, f"{mod.path}:{n.lineno}", f"{n.value.id} is changed after it is made")
            cnt = {}
            for s in mod.tree.body:
                for t in (s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, (ast.AnnAssign, ast.AugAssign)) else []):
                    if isinstance(t, ast.Name) and t.id in own:
                        cnt[t.id] = cnt.get(t.id, 0) + 1
            for x in sorted(own):
                ctx.ob("one-meaning", x, cnt.get(x, 0) == 1, mod.path, f"{x} is assigned {cnt.get(x, 0)} times")
            continue
        for n in ast.walk(mod.tree):
            bad = None
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.id in own:
                bad = n.id
            elif isinstance(n, ast.arg) and n.arg in own:
                bad = n.arg
            elif isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                b = n.value
                if isinstance(n, ast.Subscript) and isinstance(b, ast.Name) and b.id in own:
                    bad = b.id
                elif isinstance(n, ast.Attribute) and n.attr in own and isinstance(b, ast.Name) and p.resolve(mod, b.id) and p.resolve(mod, b.id)[0] == "g":
                    bad = n.attr
            elif isinstance(n, (ast.ImportFrom,)):
                for a in n.names:
                    if (a.asname or a.name) in own and (a.name != (a.asname or a.name) or not (n.module or "").endswith("message_numbers")):
                        r = p.resolve(mod, a.asname or a.name)
                        if a.name != (a.asname or a.name) or not (r and r[0] == "const" and r[2] is m):
                            bad = f"{a.asname or a.name} (imported from {n.module} as {a.name})"
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in own and n.func.attr in (
                    "append", "remove", "pop", "extend", "insert", "clear", "update", "setdefault", "reverse"):
                bad = n.func.value.id
            if bad:
                ctx.ob("one-meaning", f"{mod.name} {bad}", False, f"{mod.path}:{getattr(n, 'lineno', 0)}", f"{bad} gets another meaning here")
        # ---- every signal sent with a stop tag
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("send", "push_to_buffer") and len(n.args) == 2:
                try:
                    t, s = p.const(mod, n.args[0]), p.const(mod, n.args[1])
                except ValueError:
                    continue
                if t in (vals["STOP_TAG"], vals["PERSIS_STOP"]):
                    nsend += 1
                    ctx.ob("kill-signals", f"sent from {mod.name}", s in sig, f"{mod.path}:{n.lineno}", f"the stop message carries {s}")
    ctx.counts["stop messages with constant signal"] = nsend
    # ---- dispatch: runners
    f = p.meth(WK, "__init__")
    par = {n: P(n) for n in f.params}
    FROM = "libensemble.utils.runners:Runner.from_specs"
    res = ctx.engine(Sim(inline=lambda g: g.name not in ("from_specs", "_set_executor", "_set_resources"))).run(f)
    for st_, _ in res["return"]:
        for tagn, spec in (("EVAL_SIM_TAG", "sim_specs"), ("EVAL_GEN_TAG", "gen_specs")):
            t = C(vals[tagn])
            run = [v for l, v in st_.heap.items() if l[0] == "i" and l[2] == t and is_heap_of(st_, l[1], A(SELF, "runners"))]
            ok = bool(run) and all(run_of(st_, v, par[spec]) for v in run)
            und = run and any(run_of(st_, v, par[spec]) is None for v in run)
            if und:
                ctx.assumption(f"the runner of {tagn} is not understood")
            else:
                ctx.ob("runner", tagn, ok, ctx.where(f), f"orders with {tagn} are run by {[show(v) for v in run]}")
            cnt = [v for l, v in st_.heap.items() if l[0] == "i" and l[2] == t and is_heap_of(st_, l[1], A(SELF, "calc_iter"))]
            ctx.ob("runner", f"{tagn} count", bool(cnt) or any(callname(v) and "defaultdict" in str(callname(v)) for l, v in st_.heap.items() if l == A(SELF, "calc_iter")), ctx.where(f), f"calculations of kind {tagn} are not counted")
    # manager's type table for empty input, wherever one is sent at start-up
    for fm in (p.func(LIB + "manager:manager_main"), p.meth(MG, "_run_additional_worker")):
        def lab(ev, st):
            if ev.kind == "callret" and ev.name == "send" and len(ev.args) == 2:
                d = ev.args[1]
                return ("sent", tuple((l[2], v) for l, v in st.heap.items() if l[0] == "i" and l[1] == d))
        res = ctx.engine(Sim(label=lab, inline=lambda g: g.module.name == LIB + "manager" and g.cls is None)).run(fm)
        got = {x[1] for st_, _ in res["return"] for x in st_.rs or () if x[0] == "sent" and x[1]}
        for items in got:
            d = dict(items)
            for tagn, spec in (("EVAL_SIM_TAG", "sim_specs"), ("EVAL_GEN_TAG", "gen_specs")):
                v = d.get(C(vals[tagn]))
                ctx.ob("runner", f"{fm.name} type for {tagn}", v is not None and any(x == P(spec) for x in subterms(v)) and not any(x == P("sim_specs" if spec == "gen_specs" else "gen_specs") for x in subterms(v)),
                       ctx.where(fm), f"the type for empty input of {tagn} is {show(v) if v else 'missing'}")
        if not got:
            ctx.assumption(f"{fm.name}: the type table sent at start-up is not understood")
    # ---- dispatch: executor polling
    fpoll, fkill = p.meth(EX, "manager_poll"), p.meth(EX, "manager_kill_received")
    buf = A(SELF, "manager_signal")
    for tagn in TAGS[2:] + ("EVAL_SIM_TAG",):
        for s in sorted(sig) + [None]:
            sg = C(s) if s is not None else C(99)
            msg = ("tuple", (C(vals[tagn]), sg))
            for fi in (fpoll, fkill):
                def lab2(ev, st):
                    if ev.kind == "callret" and ev.name == "push_to_buffer":
                        return ("push", tuple(ev.args))
                    if ev.kind == "callret" and ev.name == "recv":
                        return ("recv",)
                res = ctx.engine(Sim(lambda a, st: True if a[0] == "t" and callname(a[1]) == ".mail_flag" else None, label=lab2,
                                     result=lambda ev, st: msg if ev.name == "recv" else TRUE if ev.name == "mail_flag" else None, inline=lambda g: g.name not in ("recv", "mail_flag", "push_to_buffer"))).run(fi)
                con = f"{fi.name} {tagn} signal {s}"
                ctx.ob("polling", con, bool(res["return"]) and not res["raise"], ctx.where(fi), "polling fails")
                for st_, t in res["return"]:
                    if tagn == "STOP_TAG" and s is not None:
                        ok = t == sg if fi is fpoll else t == TRUE
                        ctx.ob("polling", con, ok, ctx.where(fi), f"polling returns {show(t)}")
                        ctx.ob("polling", con + " kept", (("push", (C(vals[tagn]), sg)) in (st_.rs or ())), ctx.where(fi), "the signal is not kept for the worker")
                        ctx.ob("polling", con + " manager_signal", st_.heap.get(buf) == sg, ctx.where(fi), f"manager_signal is {show(st_.heap.get(buf, NONE))}")
                    else:
                        if fi is fkill:
                            ctx.ob("polling", con, t != TRUE, ctx.where(fi), "a message that is not a kill signal counts as one")
                        elif s is None or tagn != "STOP_TAG":
                            ctx.ob("polling", con, t not in {C(x) for x in sig} and st_.heap.get(buf, NONE) not in {C(x) for x in sig}, ctx.where(fi), "a message that is not a kill signal counts as one")


def is_heap_of(st, obj, loc):
    return obj == loc or st.heap.get(loc) == obj


def run_of(st, v, spec):
    """Is v the bound run method of the runner made from spec? None: not understood."""
    hit = [x for x in subterms(v) if x[0] == "call" and "from_specs" in str(x[1])]
    if v[0] == "a" and v[2] == "run" and v[1][0] == "a":
        w = st.heap.get(v[1])
        hit = hit or ([w] if w is not None and "from_specs" in str(w) else [])
    if not hit:
        return None
    return all(spec in [y for y in subterms(x)] for x in hit) and (v[0] == "a" and v[2] == "run" or callname(v) is None)


def wc_send(ev):
    """A send on one of the manager's communicators to workers: (worker, tag, payload) or None."""
    if ev.name != "send" or ev.base is None or len(ev.args) != 2:
        return None
    b = ev.base
    if b[0] == "i" and b[1] == A(SELF, "wcomms"):
        return (b[2],) + tuple(ev.args)
    return None


@check("C04", "truth tables of the manager's send, the worker loop's and persistent function's receive over every order and interruption, composition of both ends' framing and queue wiring, call-graph ownership of the send primitives")
def c04(ctx):
    p = ctx.p
    ctx.rule("sender", "a work order is one message with its tag, followed by one rows message to the same worker exactly when it has rows")
    ctx.rule("one-sender", "orders and rows are sent nowhere else; every other message to a worker is a stop with a plain signal")
    ctx.rule("worker-reads", "the worker loop reads the rows message exactly when the order has rows, whatever the order is")
    ctx.rule("persistent-reads", "a persistent function's receive reads the rows message exactly when the order has rows and reads nothing else")
    ctx.rule("stop-kept", "a stop signal received by a persistent function, in place of an order or of its rows, is kept for the worker loop and reported with its tag; nothing else is pushed back")
    ctx.rule("start-up", "the worker reads as many start-up messages as the manager sends, in the same order")
    ctx.rule("both-ends", "what one end of a communicator sends is what the other end receives: same tag, same payload, crossed queues")
    k = lambda n: K(p, n)
    tags = [k("EVAL_SIM_TAG"), k("EVAL_GEN_TAG"), k("PERSIS_STOP")]
    # ---- (a) the sender
    f = p.meth(MG, "_send_work_order")
    wk = P(f.params[1])
    wid = P(f.params[2])
    n = 0
    for rows in (0, 1, 3):
        for tag in tags:
            for res_ in (True, False):
                kd = key_decide({"H_rows": rows})

                def d(atom, st):
                    if atom == ("t", A(SELF, "resources")):
                        return res_
                    return kd(atom)
                lab = lambda ev, st: ("send",) + wc_send(ev) if ev.kind == "callret" and wc_send(ev) else ("send?",) if ev.kind == "callret" and ev.name == "send" else None
                rule = Sim(d, label=lab, inline=lambda g: g.name not in ("_set_resources", "extract_H_ranges"), value=lambda t: tag if t == I(wk, C("tag")) else None)
                res = ctx.engine(rule).run(f)
                con = f"order tag {tag[2]} rows={rows}"
                ctx.ob("sender", con, bool(res["return"]), ctx.where(f), "the order is never sent")
                for st, _ in res["return"]:
                    n += 1
                    snd = [x for x in st.rs or () if x[0] == "send"]
                    if any(x[0] == "send?" for x in st.rs or ()):
                        ctx.assumption("_send_work_order sends through a communicator the analysis cannot name")
                        continue
                    ctx.ob("sender", con, len(snd) == 1 + (rows > 0), ctx.where(f), f"{len(snd)} messages are sent")
                    if snd:
                        ctx.ob("sender", con + " order", snd[0][1] == wid and snd[0][2] in (tag, I(wk, C("tag"))) and snd[0][3] == wk, ctx.where(f), f"the first message is ({show(snd[0][2])}, {show(snd[0][3])}) to worker {show(snd[0][1])}")
                    for x in snd[1:]:
                        ctx.ob("sender", con + " rows", x[1] == wid and is_c(x[2]) and x[2] not in (k("STOP_TAG"), k("PERSIS_STOP")) and x[3] != wk, ctx.where(f),
                               f"the second message is ({show(x[2])}, {show(x[3])[:60]}) to worker {show(x[1])}")
    ctx.floor("paths of the sender", n, 18)
    # ---- one sender
    mg = p.module(LIB + "manager")
    may_work = closure(p, [f])
    may_start = closure(p, [p.func(LIB + "manager:manager_main"), p.meth(MG, "_run_additional_worker"), p.meth(MG, "__init__")])
    nsend = 0
    for n_ in ast.walk(mg.tree):
        if isinstance(n_, ast.Call) and isinstance(n_.func, ast.Attribute) and n_.func.attr == "send" and len(n_.args) == 2:
            fi = enclosing_func(p, mg, n_)
            nsend += 1
            try:
                t = p.const(mg, n_.args[0])
            except ValueError:
                t = None
            try:
                s = p.const(mg, n_.args[1])
            except ValueError:
                s = None
            stop = t in (k("STOP_TAG")[2], k("PERSIS_STOP")[2]) and isinstance(s, int)
            where = f"{mg.path}:{n_.lineno}"
            if fi is None or not (stop or fi.qual in may_work or fi.qual in may_start):
                # a helper that sends what it is given: judged at its callers
                if fi is not None and {x.id for x in n_.args if isinstance(x, ast.Name)} & set(fi.params):
                    ctx.assumption(f"{fi.qual} sends what its callers give it")
                    continue
                ctx.ob("one-sender", f"send in {fi.name if fi else '?'}", False, where, "a message that is not a stop signal is sent to a worker outside the order and start-up code")
            else:
                ctx.ob("one-sender", f"send in {fi.name}", True, where)
    ctx.floor("sends of the manager", nsend, 4)
    # callers of helpers that only the order code may use
    for g in p.funcs.values():
        if g.module is mg and g.qual not in may_work and g.qual not in may_start:
            for h in callees(p, g):
                if h.qual in may_work and h is not f and sends_plain(p, h, mg):
                    ctx.ob("one-sender", f"{g.name} calls {h.name}", False, ctx.where(g), f"{h.name} sends part of an order, called outside the order code")
    # ---- (b) the worker
    fw = p.meth(WK, "run")
    for nm, tag, work, status, (how, reads, handled, replies), eps, exits in run_scenarios(ctx):
        for got, rs in eps:
            c = sum(1 for x in rs if x[0] == "read")
            ctx.ob("worker-reads", nm, c == reads, ctx.where(fw), f"{c} messages are read, {reads} belong together")
    # ---- (c) persistent functions
    fr = p.meth(PS, "recv")
    PB = P(fr.params[1])
    comm = A(SELF, "comm")
    STOPS = (k("STOP_TAG"), k("PERSIS_STOP"))
    n = 0
    for tag in tags + [k("STOP_TAG")]:
        for kind in ("dict", "signal"):
            if kind == "dict" and tag == k("STOP_TAG") or kind == "signal" and tag not in STOPS:
                continue
            for rows in ((0, 2) if kind == "dict" else (0,)):
                for dtag in ((C(0), k("STOP_TAG"), k("PERSIS_STOP")) if rows else (C(0),)):
                    for blocking, mail in ((True, True), (True, False), (False, True), (False, False)):
                        sgl = k("MAN_SIGNAL_FINISH")
                        kd = key_decide({"H_rows": rows})

                        def d(atom, st, kind=kind, blocking=blocking, mail=mail):
                            r = isinst(atom)
                            if r:
                                if r[0] == WORK:
                                    return bool({"dict", "builtins.dict"} & r[1])
                                if is_c(r[0]):
                                    return bool({"int", "builtins.int"} & r[1])
                                if r[0] == ROWS:
                                    return any("ndarray" in x for x in r[1])
                            if atom == ("t", PB):
                                return blocking
                            if atom[0] == "t" and callname(atom[1]) == ".mail_flag":
                                return mail
                            if atom[0] == "cmp" and atom[1] == "==" and (WORK in atom[2:4] or ROWS in atom[2:4]):
                                return False
                            return kd(atom)

                        def result(ev, st, tag=tag, kind=kind, dtag=dtag):
                            if ev.name == "recv" and ev.base == comm:
                                c = sum(1 for x in st.rs or () if x[0] == "read")
                                if c <= 1:  # this read is already counted
                                    return ("tuple", (tag, WORK if kind == "dict" else sgl))
                                return ("tuple", (dtag, ROWS if dtag == C(0) else sgl))

                        def lab(ev, st):
                            if ev.kind == "callret" and ev.base == comm:
                                if ev.name == "recv":
                                    return ("read",)
                                if ev.name == "push_to_buffer":
                                    return ("push", tuple(ev.args))
                                if ev.name == "send":
                                    return ("send",)
                        rule = Sim(d, label=lab, result=result, value=lambda t: C(blocking) if t == PB else None)
                        res = ctx.engine(rule).run(fr)
                        con = f"recv tag {tag[2]} {kind} rows={rows} then tag {dtag[2]} blocking={blocking} mail={mail}"
                        ctx.ob("persistent-reads", con, bool(res["return"]) and not res["raise"], ctx.where(fr), f"receive fails ({[exc_of(s) for s in res['raise']]})")
                        for st, t in res["return"]:
                            n += 1
                            rs = st.rs or ()
                            want = 0 if not blocking and not mail else 1 + (kind == "dict" and rows > 0)
                            got = sum(1 for x in rs if x[0] == "read")
                            ctx.ob("persistent-reads", con, got == want, ctx.where(fr), f"{got} messages are read, {want} belong together")
                            ctx.ob("persistent-reads", con + " nothing sent", not any(x[0] == "send" for x in rs), ctx.where(fr), "receive sends a message")
                            push = [x[1] for x in rs if x[0] == "push"]
                            r = t[1] if t[0] in ("tuple", "list", "clist") and len(t[1]) == 3 else None
                            if r is None:
                                ctx.ob("persistent-reads", con + " result", t[0] not in ("tuple", "list", "clist", "c"), ctx.where(fr), f"receive returns {show(t)[:80]}")
                                continue
                            if want == 0:
                                ctx.ob("persistent-reads", con + " no mail", tuple(r) == (NONE, NONE, NONE) and not push, ctx.where(fr), f"without mail it returns {show(t)}")
                            elif kind == "signal":
                                ctx.ob("stop-kept", con, push == [(tag, sgl)], ctx.where(fr), f"pushed back: {[tuple(show(y) for y in x) for x in push]}")
                                ctx.ob("stop-kept", con + " tag", r[0] == tag, ctx.where(fr), f"the tag reported is {show(r[0])}")
                            elif dtag != C(0):
                                ctx.ob("stop-kept", con, push == [(dtag, sgl)], ctx.where(fr), f"pushed back: {[tuple(show(y) for y in x) for x in push]}")
                                ctx.ob("stop-kept", con + " tag", r[0] == dtag, ctx.where(fr), f"the tag reported is {show(r[0])}")
                            else:
                                ctx.ob("stop-kept", con, not push, ctx.where(fr), f"pushed back: {[tuple(show(y) for y in x) for x in push]}")
                                ctx.ob("persistent-reads", con + " result", r[0] == tag and r[1] == WORK, ctx.where(fr), f"receive returns {show(t)[:80]}")
                                if rows:
                                    ctx.ob("persistent-reads", con + " rows", r[2] == ROWS, ctx.where(fr), f"the rows returned are {show(r[2])[:80]}")
                                hr = st.heap.get(I(A(SELF, "libE_info"), C("H_rows")))
                                ctx.ob("persistent-reads", con + " H_rows", hr == I(INFO, C("H_rows")), ctx.where(fr), f"the function's record of the rows is {show(hr) if hr else 'not updated'}")
    ctx.floor("paths of the persistent receive", n, 30)
    # ---- (d) MPI framing
    MP = p.cls(LIB + "comms.mpi:MainMPIComm")
    fsend, frecv = p.method(MP, "send"), p.method(MP, "recv")
    T, D = P("@tag"), P("@data")
    va = vararg(fsend)
    out = set()
    und = False
    if va:
        def lab(ev, st):
            if ev.kind == "callret" and ev.name in ("isend", "send", "issend", "ssend", "ibsend", "bsend"):
                a = ev.args
                return ("post", a[0] if a else ev.kw.get("obj"), ev.kw.get("tag", a[2] if len(a) > 2 else C(0)), ev.kw.get("dest", a[1] if len(a) > 1 else None))
        res = ctx.engine(Sim(label=lab)).run(fsend, cls=MP, args={va: ("tuple", (T, D))})
        for st, _ in res["return"]:
            posts = [x for x in st.rs or () if x[0] == "post"]
            ctx.ob("both-ends", "MPI send", len(posts) == 1 and posts[0][1:] == (D, T, A(SELF, "remote_rank")), ctx.where(fsend),
                   f"the message is posted as {[tuple(show(y) for y in x[1:] if y) for x in posts]}")
    bufs = A(SELF, "recv_buffer")
    got = P("@got")

    def dm(atom, st):
        if atom == mk_cmp("==", bufs, NONE):
            return True
        if atom == ("t", bufs):
            return False
    sites = []

    def lab3(ev, st):
        if ev.kind == "callret" and ev.name in ("recv", "irecv"):
            sites.append((ev.kw.get("source"), ev.kw.get("status")))
    res = ctx.engine(Sim(dm, label=lab3, result=lambda ev, st: got if ev.name == "recv" and ev.base is not None and ev.base != SELF else None)).run(frecv, cls=MP)
    for st, t in res["return"]:
        ok = t[0] in ("tuple", "clist", "list") and len(t[1]) == 2 and t[1][1] == got and callname(t[1][0]) == ".Get_tag"
        ctx.ob("both-ends", "MPI receive", ok, ctx.where(frecv), f"the message received is {show(t)[:100]}")
    for s in sites:
        ctx.ob("both-ends", "MPI partner", s[0] == A(SELF, "remote_rank") and s[1] is not None, ctx.where(frecv), "messages are received from someone else, or without their tag")
    # ---- (e) queue wiring
    TM = LIB + "comms.tcp_mgr"
    fa, fe = p.meth(TM + ":ServerQCommManager", "await_workers"), p.meth(TM + ":ClientQCommManager", "__enter__")
    ID = P("@id")

    def made(fi, idterm, **kw):
        out = []

        def lab(ev, st):
            if ev.kind in ("call", "callret") and ev.name in ("QComm",) or ev.kind == "new" and "QComm" in str(ev.name):
                out.append(tuple(qname(x, idterm) for x in ev.args[:2]))
        eng = ctx.engine(Sim(label=lab, inline=lambda g: g.name not in ("get_queue", "get_shared") and not (g.cls is not None and g.cls.name == "QComm"), **kw))
        eng.run(fi)
        return out
    server = made(fa, None, result=lambda ev, st: ID if ev.name == "get" and not ev.args else None)
    client = made(fe, A(SELF, "workerID"))
    ctx.ob("both-ends", "TCP queues", bool(server) and bool(client), ctx.where(fa), "no communicator is made from the queues")
    for s in server:
        for c in client:
            if None in s + c:
                ctx.assumption("the names of the TCP queues are not understood")
                continue
            ctx.ob("both-ends", "TCP queues", s == (c[1], c[0]) and s[0] != s[1], ctx.where(fa), f"the manager reads {s[0]} and writes {s[1]}, the worker reads {c[0]} and writes {c[1]}")
            ctx.ob("both-ends", "TCP queues per worker", all("@id" in x for x in s + c), ctx.where(fa), "several workers share a queue")
    QL, QC = p.cls(LIB + "comms.comms:QCommLocal"), p.cls(LIB + "comms.comms:QComm")

    def used(c, meth, ops):
        """Attributes of class c on which its method puts / gets."""
        out = set()

        def lab(ev, st):
            if ev.kind == "call" and ev.name in ops and ev.base is not None and ev.base[0] == "a" and ev.base[1] == SELF:
                out.add(ev.base)
        ctx.engine(Sim(label=lab)).run(p.method(c, meth), cls=c)
        return out
    PUT, GET = ("put", "put_nowait"), ("get", "get_nowait")
    lput, lget, rput, rget = used(QL, "send", PUT), used(QL, "recv", GET), used(QC, "send", PUT), used(QC, "recv", GET)
    one = all(len(x) == 1 for x in (lput, lget, rput, rget))
    if not one:
        ctx.assumption("the queues of a thread or process team are not plain attributes")
    teams = [c for c in p.classes.values() if c is not QL and QL in p.mro(c)] if one else []
    lput, lget, rput, rget = (next(iter(x), None) for x in (lput, lget, rput, rget))
    for c in teams:
        fi = p.method(c, "__init__")
        res = ctx.engine(Sim()).run(fi, cls=c)
        nend = 0
        for st, _ in res["return"]:
            q = lambda obj, loc: st.heap.get(A(obj, loc[2]))
            for o in {l[1] for l in st.heap if l[0] == "a" and l[1][0] == "new" and l[1][2].endswith(":QComm")}:
                nend += 1
                i, o_ = q(o, rget), q(o, rput)
                ctx.ob("both-ends", f"{c.name} queues", i is not None and i == st.heap.get(lput) and o_ is not None and o_ == st.heap.get(lget) and i != o_, ctx.where(fi),
                       "the two ends do not read what the other writes")
        if not nend:
            ctx.assumption(f"{c.name}: how the two ends are connected is not understood")
    # ---- (f) start-up
    fm, fwm = p.func(LIB + "manager:manager_main"), p.func(LIB + "worker:worker_main")
    for use in (True, False):
        kd = key_decide({"use_workflow_dir": use})
        sent = set()
        for fi in (fm, p.meth(MG, "_run_additional_worker")):
            seqs = set()

            def lab5(ev, st):
                if ev.kind == "callret" and ev.name == "send" and len(ev.args) == 2:
                    return ("send", "types" if st_dict(st, ev.args[1]) else "dir" if contains_key(ev.args[1], "workflow_dir_path") else show(ev.args[1])[:40])
            res = ctx.engine(Sim(lambda a, st: kd(a), label=lab5, inline=lambda g: g.cls is None and g.module.name == LIB + "manager")).run(fi)
            for st, _ in res["return"]:
                s = tuple(dict.fromkeys(x[1] for x in st.rs or () if x[0] == "send"))
                if fi is not fm or s:
                    seqs.add(s)
            full = ("types", "dir") if use else ("types",)
            # (a loop over the communicators may be explored with none)
            ok = full in seqs and seqs <= {full} | ({("types",), ("dir",)} if fi is fm else set())
            ctx.ob("start-up", f"{fi.name} workflow dir={use}", ok, ctx.where(fi), f"the manager sends {sorted(seqs)}")
        k2 = key_decide({"use_workflow_dir": use, "profile": None})

        def lab6(ev, st):
            if ev.kind == "callret" and ev.name == "recv" and ev.base == P(fwm.params[0]):
                return ("read",)
            if ev.kind == "call" and (ev.name == "Worker" or "Worker" == str(ev.name).split(":")[-1]) and len(ev.args) > 1:
                return ("worker", ev.args[1])

        def res6(ev, st):
            if ev.name == "recv" and ev.base == P(fwm.params[0]):
                return ("tuple", (C(0), P(f"@msg{sum(1 for x in st.rs or () if x[0] == 'read') - 1}")))
        res = ctx.engine(Sim(lambda a, st: k2(a), label=lab6, result=res6, inline=lambda g: g.cls is None and g.module.name == LIB + "worker")).run(fwm)
        ctx.ob("start-up", f"worker_main workflow dir={use}", bool(res["return"]), ctx.where(fwm), "the worker never starts")
        for st, _ in res["return"]:
            c = sum(1 for x in st.rs or () if x[0] == "read")
            ctx.ob("start-up", f"worker_main workflow dir={use}", c == 1 + use, ctx.where(fwm), f"the worker reads {c} start-up messages")
            for x in st.rs or ():
                if x[0] == "worker":
                    ctx.ob("start-up", "types used", x[1] == P("@msg0"), ctx.where(fwm), f"the worker's types are {show(x[1])}")
            if use:
                v = st.heap.get(I(P("libE_specs"), C("workflow_dir_path")))
                ctx.ob("start-up", "directory used", v == P("@msg1"), ctx.where(fwm), f"the workflow directory is {show(v) if v else 'not set'}")


def closure(p, fs):
    out, todo = set(), list(fs)
    while todo:
        f = todo.pop()
        if f.qual in out:
            continue
        out.add(f.qual)
        todo += [g for g in callees(p, f) if g.module is f.module]
    return out


def sends_plain(p, h, mod):
    for c in all_calls(h):
        if isinstance(c.func, ast.Attribute) and c.func.attr == "send" and len(c.args) == 2:
            try:
                p.const(mod, c.args[0])
                p.const(mod, c.args[1])
            except ValueError:
                return True
    return False


def contains_key(t, key):
    return any(is_strc(x) and x[2] == key for x in subterms(t))


def st_dict(st, t):
    return t[0] == "new" and any(l[0] == "i" and l[1] == t for l in st.heap)


def qname(t, idterm):
    """The queue name inside a get_queue call, with the worker's id replaced."""
    for x in subterms(t):
        if callname(x) in (".get_queue", "get_queue") or x[0] == "call" and str(x[1]).endswith("get_queue"):
            for a in x[2][::-1]:
                s = show(a)
                if idterm is not None:
                    s = s.replace(show(idterm), "@id")
                return s
    return None
