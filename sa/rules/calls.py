"""G03: every specification gets the runner that fits it, and its user function is called as given."""
import ast

from . import check
from .cleanup import Flags
from .common import *  # noqa
from .comms import Sim, isinst
from .gens import RUN, family

F, S, GEN, CALC, PI, LI, SIG, OUT = (P(x) for x in ("@user_function", "@specs", "@generator", "@calc_in", "@persis_info", "@libE_info", "@signature", "@out"))
GENS = LIB + "generators:"
QT = LIB + "comms.comms:QCommThread"


def specs(**kw):
    return ("cdict", tuple((C(k), v) for k, v in kw.items()))


def mine(g):
    return g.cls is not None and g.cls.qual.startswith(RUN)


def seq(t, st):
    """Items of an argument list: literal, tracked, or cut to a constant length."""
    if t is None:
        return None
    if t[0] in ("tuple", "list", "clist"):
        return list(t[1])
    if t[0] == "new":
        c = st.heap.get(("content", t))
        return list(c[1]) if c is not None and c[0] in ("tuple", "list", "clist") else None
    if t[0] == "i" and t[2][0] == "s":
        b = seq(t[1], st)
        lo, hi, step = t[2][1:4]
        if b is None or lo not in (NONE, C(0)) or step not in (NONE, C(1)) or hi[0] != "c":
            return None
        return b[:hi[2]]
    if callname(t) in ("tuple", "list") and len(t[2]) == 1:
        return seq(t[2][0], st)
    if t[0] == "b" and t[1] == "+":
        a, b = seq(t[2], st), seq(t[3], st)
        return None if a is None or b is None else a + b
    return None


def flat(args, st):
    out = []
    for a in args:
        if a[0] == "star":
            s = seq(a[1], st)
            if s is None:
                return None
            out += s
        else:
            out.append(a)
    return out


@check("G03", "exhaustive choice table of the runners by abstract interpretation, and argument flow from the work order to the single call of the user function for every runner and every number of parameters")
def g03(ctx):
    p = ctx.p
    ctx.rule("choice", "a Globus Compute endpoint, the threaded option, and the kind of generator each select the runner made for them; a plain function is run in place")
    ctx.rule("called-once", "every run calls the user function exactly once, with the first of (input, persis_info, specs, libE_info) that it takes, in this order, and hands back what it returned")
    ctx.rule("persis-info", "a work order without persis_info gives the function an empty dictionary; otherwise the order's own is given")
    ctx.rule("dict-refused", "a dictionary returned in place of an array is refused, and nothing else is")
    ctx.rule("in-thread", "the threaded runner starts one thread with the user function, waits for its result and, on shutdown, ends a thread it started")
    ctx.rule("remote", "the Globus Compute runner registers the user function and submits exactly this function; without Globus Compute the function is run in place")
    ctx.rule("shut-down", "a worker shuts both its runners down on every exit")
    base = p.cls(RUN + "Runner")
    choice(ctx, p, base)
    n = 0
    for c in family(p, base.qual):
        if p.method(c, "_persistent_result") is not None or p.method(c, "run") is None:
            continue                        # suggest/ingest runners: G01
        for key in ("sim_f", "gen_f"):
            for k in (1, 2, 3, 4):
                n += 1
                calls(ctx, p, c, key, k)
    ctx.floor("(runner, kind, number of parameters) cases", n, 24)
    shut_down(ctx, p)


def choice(ctx, p, base):
    fi = p.method(base, "from_specs")
    if fi is None:
        raise AnalysisBroken("Runner.from_specs is gone")
    inter, lib = p.cls(GENS + "PersistentGenInterfacer"), p.cls(GENS + "LibensembleGenerator")
    cases = [("an endpoint", specs(sim_f=F, globus_compute_endpoint=P("@endpoint")), None, "GlobusComputeRunner"),
             ("an endpoint for the generator", specs(gen_f=F, globus_compute_endpoint=P("@endpoint"), threaded=FALSE, generator=NONE), None, "GlobusComputeRunner"),
             ("an empty endpoint", specs(sim_f=F, globus_compute_endpoint=C("")), None, "Runner"),
             ("threaded", specs(gen_f=F, threaded=TRUE, globus_compute_endpoint=C("")), None, "ThreadRunner"),
             ("not threaded", specs(gen_f=F, threaded=FALSE), None, "Runner"),
             ("a function", specs(sim_f=F), None, "Runner"),
             ("no generator object", specs(gen_f=F, generator=NONE), None, "Runner"),
             ("a generator in a thread of its own", specs(generator=GEN, gen_f=NONE), inter, "LibensembleGenThreadRunner"),
             ("a libEnsemble generator", specs(generator=GEN, threaded=FALSE), lib, "LibensembleGenRunner"),
             ("another generator", specs(generator=GEN), None, "StandardGenRunner")]
    for name, sp, gcls, want in cases:
        def decide(atom, st):
            i = isinst(atom)
            if i is not None and i[0] == GEN:
                return any(q in i[1] for q in ([x.qual for x in p.mro(gcls)] if gcls else []))
            if atom[0] == "cmp" and atom[1] in ("==", "is") and NONE in atom[2:] and (GEN in atom or P("@endpoint") in atom or F in atom):
                return False
            t = atom[1] if atom[0] == "t" else atom
            if t in (GEN, P("@endpoint"), F):
                return True
            if atom[0] == "cmp" and atom[1] == "<0" and atom[2] == ((("len", P("@endpoint")), -1),):
                return True
            return None

        def label(ev, st):
            q = p.classes.get(ev.callee) if ev.kind == "call" and isinstance(ev.callee, str) else None
            if q is not None and base in p.mro(q):
                return ("make", q.name, tuple(ev.args), ev.where())
        res = ctx.engine(Sim(decide=decide, label=label, inline=lambda g: g.name != "__init__", havoc=False)).run(fi, args={list(fi.params)[-1]: sp}, cls=base)
        if not res["return"]:
            ctx.ob("choice", name, False, ctx.where(fi), "no runner is returned")
        for st, v in res["return"]:
            made = [x for x in st.rs or () if x[0] == "make"]
            got = made[-1][1] if made else show(v)[:40]
            ctx.ob("choice", name, len(made) == 1 and got == want, made[-1][3] if made else ctx.where(fi), f"gets {got}, not {want}")
            if made:
                ctx.ob("choice", name + ": specs", sp in made[-1][2], made[-1][3], "the runner is not given the specification")


def calls(ctx, p, c, key, k):
    thread, remote = c.name == "ThreadRunner", "Globus" in c.name
    sp = specs(**({"sim_f": F, "globus_compute_endpoint": P("@endpoint")} if key == "sim_f" else {"sim_f": NONE, "gen_f": F, "globus_compute_endpoint": P("@endpoint")}))
    init = p.method(c, "__init__")
    for sdk in (True, False) if remote else (True,):
        def decide0(atom, st):
            t = atom[1] if atom[0] == "t" else atom
            if t in (F, P("@sdk")):
                return True
            if atom[0] == "cmp" and NONE in atom[2:] and (F in atom or P("@sdk") in atom or any(isinstance(x, tuple) and x[0] == "g" for x in atom[2:])):
                return False
            return None

        con0 = f"{c.name}({key}{'' if sdk else ', no Globus Compute'})"
        found = [f for f in (p.method(c, m) for m in c.methods) if f is not None and any(isinstance(x, ast.ImportFrom) and "globus" in (x.module or "") for x in ast.walk(f.node))] if remote else []

        def result0(ev, st):
            if found and ev.callee == found[0].qual:
                return P("@sdk") if sdk else NONE
            if ev.kind == "call" and ev.name == "register_function":
                ctx.ob("remote", f"{con0}: registered", list(ev.args) == [F], ev.where(), "another function than the user's is registered")
                return P("@fid")
            return None
        r0 = ctx.engine(Sim(decide=decide0, result=result0, inline=lambda g: mine(g) and not (found and g is found[0]), havoc=False)).run(init, args={list(init.params)[1]: sp}, cls=c)
        if not r0["return"] or r0["raise"]:
            ctx.ob("remote" if remote else "called-once", con0 + ": construction", False, ctx.where(init), "the runner cannot be made")
        for s0, _ in r0["return"]:
            one_call(ctx, p, c, con0, k, s0, thread, remote and sdk, sp)


def one_call(ctx, p, c, con, k, s0, thread, remote, sp):
    fi = p.method(c, "run")
    rn = ctx.where(fi)
    names = list(fi.params)
    for kind in ("array", "pair", "dict", "dict pair"):
        for pin in (PI, NONE):
            work = ("new", ("@work", 0), "dict")
            heap = {t: v for t, v in s0.heap.items()}
            heap.update({("i", work, C("persis_info")): pin, ("i", work, C("libE_info")): LI, ("a", SIG, "parameters"): ("tuple", tuple(C(str(i)) for i in range(k)))})
            first = P("@dict") if "dict" in kind else P("@array")
            out = ("tuple", (first, P("@rest"))) if "pair" in kind else first

            def decide(atom, st):
                i = isinst(atom)
                if i is not None:
                    cs = {x for x in i[1]}
                    if i[0] == P("@dict"):
                        return "dict" in cs
                    if i[0] == P("@array"):
                        return False
                    if i[0] == OUT or i[0][0] == "tuple":
                        return "tuple" in cs
                if atom[0] == "cmp" and NONE in atom[2:] and any(x in atom for x in (PI, F, P("@sdk"), LI)):
                    return False
                t = atom[1] if atom[0] == "t" else atom
                if t in (P("@sdk"), PI, F):
                    return True
                if atom[0] == "cmp" and NONE in atom[2:] and any(isinstance(x, tuple) and (x[0] == "new" and x[2].startswith("obj:") or x[0] == "call") for x in atom[2:]):
                    return False
                return None

            def user(ev, st):
                """The arguments of a call of the user function, in whatever way it is made."""
                if ev.kind != "call":
                    return None
                if is_call_of(ev, F):
                    return flat(ev.args, st), "call"
                if thread and ev.callee == QT:
                    a = flat(ev.args, st)
                    return (None if a is None or len(a) < 2 or a[0] != F else a[2:]), "thread"
                if remote and ev.name in ("submit_to_registered_function", "submit"):
                    a = list(ev.args)
                    if ev.name == "submit":
                        return (flat(a[1:], st) if a and a[0] == F else None), "remote"
                    if not a or a[0] != P("@fid"):
                        return None, "remote"
                    return (seq(a[1], st) if len(a) > 1 else seq((ev.kw or {}).get("args"), st)), "remote"
                return None

            def label(ev, st):
                u = user(ev, st)
                if u is not None:
                    a = u[0]
                    return ("user", u[1], None if a is None else tuple(a), ev.where(), tuple(sorted((ev.kw or {}).items())),
                            tuple((x, st.heap.get(("content", x))) for x in a or () if x[0] == "new"))
                if thread and ev.kind == "call" and ev.callee in (p.method(p.cls(QT), "run").qual, p.method(p.cls(QT), "result").qual):
                    return ("handle", ev.name, ev.where())
                if remote and ev.kind == "call" and ev.name == "result":
                    return ("handle", "result", ev.where())
                return None

            def result(ev, st):
                if ev.name == "signature" and ev.callee == "inspect.signature":
                    return SIG
                if ev.kind == "call" and is_call_of(ev, F):
                    return out
                if thread and ev.callee == p.method(p.cls(QT), "result").qual or remote and ev.name == "result":
                    return out
                return None
            res = ctx.engine(Sim(decide=decide, label=label, result=result, havoc=False, inline=mine)).run(
                fi, args={names[1]: CALC, names[2]: work}, heap=heap, cls=c)
            cn = f"{con}, {k} parameters"
            ctx.ob("dict-refused", f"{c.name}: {kind}", bool(res["raise"]) == ("dict" in kind), rn,
                   "a dictionary is taken for an array" if "dict" in kind else f"{kind} output is refused")
            if "dict" in kind:
                ctx.ob("dict-refused", f"{c.name}: {kind} not returned", not res["return"], rn, "a dictionary is taken for an array")
            for st, v in res["return"]:
                us = [x for x in st.rs or () if x[0] == "user"]
                ctx.ob("called-once", f"{cn}: once", len(us) == 1, us[1][3] if len(us) > 1 else rn, f"the user function is called {len(us)} times")
                if len(us) != 1:
                    continue
                _, how, a, w, kw, contents = us[0]
                want = [CALC, pin, sp, LI][:k]
                if a is None:
                    ctx.assumption(f"{cn}: the arguments of the user function are the first {k}")
                    continue
                ok = len(a) == k
                for i in range(min(k, len(a))):
                    if i == 1 and pin == NONE:
                        cont = dict(contents).get(a[1])
                        ctx.ob("persis-info", f"{c.name}: none given", a[1][0] == "new" and a[1][2] == "dict" or a[1] == ("cdict", ()), w, f"the function is given {show(a[1])[:40]}")
                    elif i == 1:
                        ctx.ob("persis-info", f"{c.name}: given", a[1] == PI, w, f"the function is given {show(a[1])[:40]} for its persis_info")
                    else:
                        ok = ok and a[i] == want[i]
                ctx.ob("called-once", f"{cn}: arguments", ok, w, f"the function is called with ({', '.join(show(x)[:24] for x in a)})")
                ctx.ob("called-once", f"{cn}: result", v == out, rn, f"what the function returned is not handed back: {show(v)[:60]}")
                ctx.ob("in-thread" if thread else "remote" if c.name.startswith("Globus") else "called-once", f"{c.name}: where{'' if remote or thread else ' (in place)'}", how == ("thread" if thread else "remote" if remote else "call"), w, "runs elsewhere than asked for")
                if thread:
                    hs = [x[1] for x in st.rs if x[0] == "handle"]
                    ctx.ob("in-thread", f"{c.name}: started and awaited", hs == ["run", "result"], w, f"the thread is handled by {hs}")
                    ctx.ob("in-thread", f"{c.name}: as a user function", ("user_function", TRUE) in kw, w, "the thread would give the function a communicator as first argument")
                if thread or remote:
                    ended(ctx, p, c, st, True, remote)
    if thread or c.name.startswith("Globus"):
        ended(ctx, p, c, s0, False if not remote else True, remote)


def is_call_of(ev, f):
    """A call whose callee is the value f."""
    return ev.extra == f


def ended(ctx, p, c, s0, started, remote):
    fi = p.method(c, "shutdown")

    def decide(atom, st):
        if atom[0] == "cmp" and NONE in atom[2:] and any(isinstance(x, tuple) and (x[0] in ("new", "call") or x == P("@sdk")) for x in atom[2:]):
            return False
        t = atom[1] if atom[0] == "t" else None
        if t is not None and t[0] in ("new", "call"):
            return True
        return None

    def label(ev, st):
        if ev.kind == "call" and ev.name in ("terminate", "shutdown") and ev.base is not None and ev.base != SELF and not (isinstance(ev.callee, str) and ev.callee.startswith(RUN)):
            return ("end", ev.base, ev.where())
    res = ctx.engine(Sim(decide=decide, label=label, havoc=False, inline=mine)).run(fi, heap=dict(s0.heap), cls=c)
    rule = "remote" if remote or c.name.startswith("Globus") else "in-thread"
    if not res["return"] or res["raise"]:
        ctx.ob(rule, f"{c.name}: shutdown", False, ctx.where(fi), "shutting down fails")
    for st, _ in res["return"]:
        n = [x for x in st.rs or () if x[0] == "end"]
        nul = any(x[1] == NONE for x in n)
        ctx.ob(rule, f"{c.name}: shutdown {'after a run' if started else 'before any run'}", len(n) == (1 if started else 0) and not nul, n[0][2] if n else ctx.where(fi),
               "what was started is left running" if started else "something that was never started is ended")


def shut_down(ctx, p):
    W = LIB + "worker:Worker"
    fi = p.meth(W, "run")
    # attributes that hold runners
    init = p.meth(W, "__init__")
    runners = {}

    def lab0(ev, st):
        if ev.kind == "store" and ev.loc[:2] == ("a", SELF):
            v = ev.value
            if callname(v) is not None and str(callname(v)).endswith("Runner.from_specs") or v is not None and mentions(v, lambda t: callname(t) is not None and str(callname(t)).endswith("from_specs")):
                runners[ev.loc[2]] = v
        return None
    ctx.engine(Sim(label=lab0, inline=lambda g: g.cls is not None and g.cls.qual == W, havoc=False)).run(init)
    keys = {k for k, v in runners.items() if v[0] == "call"}
    if len(keys) < 2:
        raise AnalysisBroken("G03: the worker's runners are not found")
    for fail in (False, True):
        def raises(ev, st):
            if not fail or ev.name in ("shutdown", "debug", "info", "send", "kill_pending", "format_exc", "format_exc_msg") or ev.kind != "call":
                return False
            return ["Exception"] if ev.name in ("recv", "_recv_H_rows", "_handle", "_handle_calc") or ev.callee in p.funcs and p.funcs[ev.callee].cls is not None and p.funcs[ev.callee].cls.qual == W else False

        def label(ev, st):
            if ev.kind == "call" and ev.name == "shutdown" and ev.base is not None and ev.base[:2] == ("a", SELF) and ev.base[2] in keys:
                return ("+", ev.base[2])
        res = ctx.engine(Flags(label=label, raises=raises, inline=lambda g: g.cls is not None and g.cls.qual == W and not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "from_specs" for x in ast.walk(g.node)), relevant=lambda a: False, havoc=False)).run(fi, rs=frozenset())
        outs = [(s, "returning") for s, _ in res["return"]] + [(s, "with an error") for s in res["raise"]]
        ctx.ob("shut-down", "worker ends", bool(outs), ctx.where(fi), "the worker never ends")
        for s, how in outs:
            for kx in sorted(keys):
                ctx.ob("shut-down", f"{kx} {how}", kx in (s.rs or ()), ctx.where(fi), f"the worker ends without shutting down its {kx}")
