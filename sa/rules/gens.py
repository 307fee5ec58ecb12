"""G01: suggest/ingest generators are started before use, are given what the manager sends, and hear every stop."""
import ast

from . import check
from .cleanup import Flags
from .common import *  # noqa
from .comms import Sim

G = LIB + "generators:"
RUN = LIB + "utils.runners:"
MISC = LIB + "utils.misc:"
PS = LIB + "tools.persistent_support:PersistentSupport."
SIDE = ("run", "send", "recv", "result", "terminate")


def family(p, qual):
    c = p.cls(qual)
    return [c] + [k for k in p.classes.values() if k is not c and c in p.mro(k)]


def side(ev):
    """Name of the communicator method called on the generator's own process or thread."""
    cal = ev.callee if isinstance(ev.callee, str) else ""
    if ev.kind == "call" and ev.name in SIDE and cal.startswith(LIB + "comms.comms:QComm"):
        return ev.name
    return None


# ------------------------------------------------------------------------------------------------ the generator object
def typestate(ctx, C0):
    """Every history of calls on an interfacer, from its constructor: the process is started once, before it is used."""
    p = ctx.p
    ctx.rule("started-before-use", "in every history of setup, suggest, ingest and finalize calls the generator's process is started at most once, and started before anything is sent to it, received from it or awaited")

    def inl(g):
        return g.cls is not None and g.cls.qual.startswith(G)

    def run(m, heap, started):
        fi = p.method(C0, m)

        def label(ev, st):
            s = side(ev)
            rs = st.rs or frozenset()
            if s == "run":
                ctx.ob("started-before-use", f"{m}: start", "run" not in rs, ev.where(), "the generator's process may be started twice")
                return [("+", "run")]
            if s in ("send", "recv", "result"):
                ctx.ob("started-before-use", f"{m}: {s}", "run" in rs, ev.where(), "the generator's process may be used before it is started: nobody answers")
            return None
        return ctx.engine(Flags(label=label, inline=inl, havoc=False)).run(
            fi, heap=heap, cls=C0, rs=frozenset({"run"}) if started else frozenset())

    def state(st):
        return frozenset((k, v) for k, v in st.heap.items() if k[0] == "a" and k[1] == SELF and (
            v[0] == "c" or v[0] == "new" and v[2].startswith("obj:")))
    names = [m for m in ("setup", "suggest", "ingest", "suggest_numpy", "ingest_numpy", "finalize") if p.method(C0, m) is not None]
    if len(names) < 6 or p.method(C0, "__init__") is None:
        raise AnalysisBroken("G01: the methods of a threaded generator are gone")
    todo, seen, n, used = [], set(), 0, set()
    for st, _ in run("__init__", {}, False)["return"]:
        todo.append((state(st), "run" in (st.rs or ())))
    while todo:
        s = todo.pop()
        if s in seen:
            continue
        seen.add(s)
        if len(seen) > 40:
            raise AnalysisBroken("G01: the states of a threaded generator do not settle")
        for m in names:
            n += 1
            for st, _ in run(m, dict(s[0]), s[1])["return"]:
                t = (state(st), "run" in (st.rs or ()))
                used.add((m, t[1]))
                if t not in seen:
                    todo.append(t)
    ctx.floor("(state, call) pairs of a threaded generator", n, 12)
    for m in ("suggest_numpy", "ingest_numpy"):
        ctx.ob("started-before-use", f"{m} starts the process", (m, True) in used, ctx.where(p.method(C0, m)), "never starts the generator's process")


def handing_over(ctx, C0):
    """ingest_numpy of an interfacer class: what goes to the generator's process."""
    p = ctx.p
    ctx.rule("stop-forwarded", "a stop given to a threaded generator is sent to its process at once, whatever its state, exactly once")
    ctx.rule("results-forwarded", "results given to a threaded generator are sent to its process as a work order followed by its rows, and the rows are not labelled as a stop")
    PSTOP, EVAL, STOP = K(p, "PERSIS_STOP"), K(p, "EVAL_GEN_TAG"), K(p, "STOP_TAG")
    n = 0
    for c in family(p, C0.qual):
        fi = p.method(c, "ingest_numpy")
        # attributes that hold arrays the class built itself
        arrays = {t.attr for f in c.methods.values() for x in ast.walk(f.node) if isinstance(x, ast.Assign) and isinstance(x.value, ast.Call)
                  and ast.unparse(x.value.func).startswith("np.") for t in x.targets if isinstance(t, ast.Attribute)}
        for rows in (NONE, P("results")):
            for tag in (PSTOP, EVAL):
                if tag == EVAL and rows == NONE:
                    continue
                n += 1
                con = f"{c.name}.ingest_numpy({'rows' if rows != NONE else 'no rows'}, {'stop' if tag == PSTOP else 'results'})"

                def decide(atom, st):
                    if atom[0] == "cmp" and atom[1] in ("is", "==") and NONE in atom:
                        x = atom[3] if atom[2] == NONE else atom[2]
                        if x == P("results") or (callname(x) or "").startswith("numpy.") or x[:2] == ("a", SELF) and x[2] in arrays or x[0] == "phi":
                            return False
                    return None

                def label(ev, st):
                    if ev.kind == "call" and side(ev) == "send" or ev.kind == "call" and ev.name == "send" and ev.base is not None and ev.base[0] == "a" and ev.base[1] == SELF:
                        return ("send", ev.args[0] if ev.args else None, ev.where())
                    return None
                res = ctx.engine(Sim(decide=decide, label=label, inline=lambda g: g.cls is not None and (
                    g.cls.qual.startswith(G) or g.cls is c) and g.name not in ("setup", "_prep_fields", "_slot_in_data"), havoc=False)).run(
                        fi, args={"results": rows, "tag": tag}, cls=c)
                if not res["return"]:
                    ctx.ob("stop-forwarded", con, False, ctx.where(fi), "never returns")
                for st, _ in res["return"]:
                    sends = [x for x in st.rs or () if x[0] == "send"]
                    w = sends[0][2] if sends else ctx.where(fi)
                    tags = [x[1] for x in sends]
                    if tag == PSTOP:
                        ctx.ob("stop-forwarded", con, bool(tags) and tags[0] == PSTOP, w, "the stop is held back, or sent under another tag" if tags else "the stop is held back")
                        if tags:
                            ok = len(tags) <= 2 and not any(t in (PSTOP, STOP) for t in tags[1:])
                            ctx.ob("stop-forwarded", con + ": once", ok, w, "the rows after the stop are labelled as another stop" if len(tags) == 2 else "the stop is sent several times")
                        if rows != NONE and len(tags) == 1 and c is C0:
                            ctx.ob("results-forwarded", con + ": rows follow", False, w, "the final rows are dropped")
                    elif tags:
                        ctx.ob("results-forwarded", con + ": framing", len(tags) == 2 and tags[0] == EVAL and not any(t in (PSTOP, STOP) for t in tags), w,
                               "results are not sent as one work order and one set of rows (the process would wait for the missing part, or stop)")
                    elif c is C0:
                        ctx.ob("results-forwarded", con, False, ctx.where(fi), "the results are dropped")
    ctx.floor("ingest configurations", n, 6)
    rows_sent(ctx, C0)


def rows_sent(ctx, C0):
    """The rows an interfacer sends: the fields its generator asked for, with their values, marked as ended."""
    from .convert import built, fields_of
    p = ctx.p
    ctx.rule("rows-sent", "the rows sent to a threaded generator hold exactly the fields it asked for, each once and with the values given, and are marked as ended")
    fi = p.method(C0, "ingest_numpy")
    R = P("results")
    n = 0
    for given in (("x", "f", "sim_id", "other"), ("x", "f", "sim_id", "sim_ended"), ("sim_ended", "sim_id", "f")):
        for asked in (("x", "f", "sim_id"), ("x", "f", "sim_id", "sim_ended"), ("f", "sim_id", "grad")):
            n += 1
            con = f"results {given}, persis_in {asked}"
            sent = []

            def value(t):
                if t == ("a", ("a", R, "dtype"), "names"):
                    return ("tuple", tuple(C(x) for x in given))
                if t == ("i", ("a", SELF, "gen_specs"), C("persis_in")):
                    return ("list", tuple(C(x) for x in asked))
                if t[0] == "a" and t[2] == "names" and t[1][0] == "a" and t[1][2] == "dtype" and built(t[1][1]) is not None:
                    dt = built(t[1][1])
                    items = fields_of(dt, cur[0]) if dt[0] != "b" else None
                    return None if items is None else ("tuple", tuple(C(x[0]) for x in items))
                return None
            cur = [None]

            def decide(atom, st):
                cur[0] = st
                if atom[0] == "cmp" and NONE in atom and (R in atom or any(built(x) is not None for x in atom[2:4] if isinstance(x, tuple))):
                    return False
                return None

            def label(ev, st):
                cur[0] = st
                if ev.kind == "call" and (side(ev) == "send" or ev.name == "send" and ev.base is not None and ev.base[0] == "a" and ev.base[1] == SELF) and len(ev.args) > 1:
                    sent.append((ev.args[1], dict(st.heap), ev.where(), st))
                return None
            ctx.engine(Sim(decide=decide, label=label, value=value, inline=lambda g: g.cls is not None and g.cls.qual.startswith(G) and g.name != "setup", havoc=False)).run(
                fi, args={"results": R, "tag": K(p, "EVAL_GEN_TAG")}, cls=C0)
            hits = 0
            for v, heap, w, st in sent:
                while callname(v) == "numpy.copy" or callname(v) == ".copy":
                    v = v[2][0] if callname(v) == "numpy.copy" else v[1][1]
                dt = built(v)
                if dt is None:
                    continue
                got = fields_of(dt, st)
                if got is None:
                    ctx.assumption(f"{con}: the rows sent have the fields asked for")
                    hits += 1
                    continue
                hits += 1
                names = [g[0] for g in got]
                want = [x for x in asked if x in given and x != "sim_ended"] + ["sim_ended"]
                for x in want:
                    ctx.ob("rows-sent", f"{con}: {x}", names.count(x) == 1, w, f"{x} is {'missing' if x not in names else 'twice'} in the rows sent")
                for x in names:
                    ctx.ob("rows-sent", f"{con}: only {x}", x in want, w, f"{x} was not asked for")
                for x in want:
                    val = heap.get(("i", v, C(x)))
                    if val is None:
                        ctx.ob("rows-sent", f"{con}: value of {x}", False, w, f"{x} is left at zero")
                    elif x == "sim_ended":
                        ones = val == TRUE or callname(val) == "numpy.ones" or callname(val) == "numpy.full" and TRUE in val[2] or val[0] in ("phi", "unk") or val[0] == "i" and not mentions(val, lambda t: t == R)
                        ctx.ob("rows-sent", f"{con}: value of {x}", ones, w, "the rows sent are not marked as ended")
                    else:
                        ctx.ob("rows-sent", f"{con}: value of {x}", val == ("i", R, C(x)), w, f"{x} holds {show(val)[:60]}")
            if not hits:
                ctx.assumption(f"{con}: the rows sent are built in a form this analysis does not follow")
    ctx.floor("rows sent", n, 9)


# ------------------------------------------------------------------------------------------------ the worker's side
ROWS, WORK, CALC = P("<rows>"), P("<work>"), P("calc_in")


def runners(ctx):
    p = ctx.p
    ctx.rule("rows-given", "every set of results the manager sends (the initial history, results, final rows with a stop) is given to the generator, converted as its kind of generator expects, exactly once, before the next message is read or anything is awaited; no missing rows are given")
    ctx.rule("stop-obeyed", "once the manager sends a stop no further points are asked for or sent; a threaded generator is given the stop before its result is awaited")
    ctx.rule("points-sent", "every batch of points taken from the generator is sent to the manager, in the manager's names, and only updates to earlier points are sent as keeping the generator's state")
    ctx.rule("no-waiting", "the runner of a threaded generator waits for neither side: it reads only when a message is there, takes points only when some are there, and looks at both sides in turn")
    ctx.rule("finished", "the generator is finalized exactly once, after the last exchange, and the worker reports a finished persistent generator")
    STOP, PSTOP, EVAL, FIN = (K(p, x) for x in ("STOP_TAG", "PERSIS_STOP", "EVAL_GEN_TAG", "FINISHED_PERSISTENT_GEN_TAG"))
    base = p.cls(RUN + "StandardGenRunner")
    n = 0
    for c in family(p, base.qual):
        threaded = "Thread" in c.name or any(isinstance(x, ast.Attribute) and x.attr == "_running_gen_f" for m in c.methods.values() for x in ast.walk(m.node))
        fi = p.method(c, "_persistent_result")
        if fi is None:
            raise AnalysisBroken("G01: _persistent_result is gone")
        array = threaded or c is not base          # takes arrays (not lists of dictionaries)
        for h0 in (NONE, "empty", "rows"):
            for fail in (None, LIB + "comms.comms:CommFinishedException") if threaded else (None,):
                for ups in ("none", "empty", "some") if array and h0 == NONE and not fail else ("none",):
                    n += 1
                    one_runner(ctx, p, c, fi, threaded, array, h0, fail, ups, (STOP, PSTOP, EVAL, FIN))
    ctx.floor("(runner, initial history, ending) cases", n, 9)


UPS = (P("<first update>"), P("<second update>"))


def one_runner(ctx, p, c, fi, threaded, array, h0, fail, ups, K_):
    STOP, PSTOP, EVAL, FIN = K_
    con = c.name

    def decide(atom, st):
        if h0 != NONE and atom[0] == "cmp" and atom[1] == "<0" and len(atom[2]) == 1 and strip(atom[2][0][0]) == CALC:
            # len(calc_in) against a constant
            k, const = atom[2][0][1], atom[3]
            return k * (0 if h0 == "empty" else 1) + const < 0
        if atom[0] == "cmp" and atom[1] == "==0" and len(atom[2]) == 1 and strip(atom[2][0][0]) == CALC:
            return h0 == "empty"
        if atom[0] == "cmp" and NONE in atom and (ROWS in atom or CALC in atom) and atom[1] in ("is", "=="):
            return False
        t = atom[1] if atom[0] == "t" else atom
        if strip(t) == CALC:
            return h0 != "empty"
        if callname(t) == "callable" and "suggest_updates" in show(t):
            return ups != "none"
        if callname(t) == "hasattr" and C("suggest_updates") in t[2]:
            return ups != "none"
        if atom[0] == "cmp" and atom[1] == "==" and (STOP in atom or PSTOP in atom):
            # a variable that holds the tag of the latest message after a turn of the loop
            x = [y for y in atom[2:] if y not in (STOP, PSTOP)]
            last = flag(st.rs or (), "last")
            if x and x[0][0] in ("phi", "unk", "var") and last:
                return last[0][1] in atom
        return None

    def strip(t):
        return t[1] if t[0] == "len" else t

    def mapped(t):
        m = dict(t[3]).get("mapping") if len(t) > 3 else None
        m = m if m is not None else t[2][-1] if len(t[2]) > 1 else None
        return m is not None and "variables_mapping" in show(m)

    def flag(rs, k):
        return [x for x in rs if x[0] == k]

    def gencall(ev):
        """Calls on the generator object (through self.gen), or on its process."""
        if ev.kind != "call" or ev.base is None or ev.base == SELF:
            return None
        if ev.name in ("suggest", "suggest_numpy", "ingest", "ingest_numpy", "suggest_updates", "finalize", "result") and not (
                isinstance(ev.callee, str) and ev.callee.startswith(RUN)):
            return ev.name
        return None

    def pscall(ev):
        if ev.name in ("send", "recv", "send_recv") and isinstance(ev.callee, str) and ev.callee.startswith(PS):
            return ev.name
        return None

    def raises(ev, st):
        if fail and gencall(ev) == "suggest_numpy":
            return [fail]
        return False

    def messages():
        out = []
        for t in (STOP, PSTOP, EVAL):
            for r in (NONE, ROWS) if t != EVAL else (ROWS,):
                fl = ({("owed", "final rows" if t != EVAL else "results", ROWS)} if r == ROWS else set()) | ({("stopped", "")} if t != EVAL else set()) | {("last", t)}
                out.append(("alt", ("tuple", (t, WORK, r)), frozenset(fl)))
        return out

    def result(ev, st):
        if pscall(ev) in ("recv", "send_recv"):
            return messages()
        if ev.kind == "call" and ev.name == "mail_flag":
            return [("alt", TRUE, frozenset({("mail", "")})), ("alt", FALSE, frozenset({("idle", "")}))]
        if ev.kind == "call" and ev.name == "empty" and threaded:
            return [("alt", FALSE, frozenset({("has points", "")})), TRUE]
        if gencall(ev) == "suggest_updates":
            return ("list", UPS if ups == "some" else ())
        return None

    def settled(rs, ev, what):
        for x in flag(rs, "update"):
            if what != "a message is exchanged":
                ctx.ob("points-sent", f"{con}: updates", False, ev.where(), f"{what} before an update to earlier points was sent")
        for x in flag(rs, "owed"):
            ctx.ob("rows-given", f"{con}: {x[1]}", False, ev.where(), f"{what} before the rows of {x[1]} were given to the generator")

    def label(ev, st):
        rs = st.rs or frozenset()
        out = []
        g = gencall(ev)
        ps = pscall(ev) if ev.kind in ("call", "callret") else None
        if ev.kind == "call" and ev.name == "empty" and threaded:
            return [("+", ("looked", ""))]
        if ev.kind == "call" and ev.name == "mail_flag" and threaded:
            if flag(rs, "idle"):
                ctx.ob("no-waiting", f"{con}: looks at both sides", bool(flag(rs, "looked")), ev.where(), "waits for the manager without looking whether the generator has made points")
            return [("-", lambda x: x[0] in ("idle", "looked", "mail"))]
        if ps == "recv" and ev.kind == "call" and threaded:
            ctx.ob("no-waiting", f"{con}: reads", bool(flag(rs, "mail")), ev.where(), "waits for the manager although nothing may be there: points of the generator are not sent meanwhile")
        if ps and ev.kind == "call":
            settled(rs, ev, "a message is exchanged")
            sent = (ev.args or [None])[0] if ps != "recv" else None
            if sent is not None:
                is_points = mentions(sent, lambda t: callname(t) in (".suggest", ".suggest_numpy"))
                is_update = sent in UPS
                keep = (ev.kw or {}).get("keep_state", ev.args[2] if len(ev.args) > 2 else FALSE)
                if is_points or is_update:
                    ctx.ob("points-sent", f"{con}: state kept", keep == (TRUE if is_update else FALSE), ev.where(),
                           "an update to earlier points is sent as if it were the generator's new points" if is_update else "new points are sent as if they were updates: the manager never counts the generator as waiting")
                if is_update:
                    ctx.ob("points-sent", f"{con}: updates once", ("update", sent) in rs, ev.where(), "an update is sent twice")
                    out.append(("-", lambda x: x == ("update", sent)))
                if is_points:
                    ctx.ob("points-sent", f"{con}: in the manager's names", not threaded or mentions(sent, lambda t: callname(t) == MISC + "unmap_numpy_array" or callname(t) == ".unmap_numpy_array"), ev.where(),
                           "points are sent under the generator's own names")
                    how = [t for t in subterms(sent) if (callname(t) or "").endswith(("unmap_numpy_array", "list_dicts_to_np"))]
                    if how:
                        ctx.ob("points-sent", f"{con}: mapping", all(mapped(t) for t in how), ev.where(), "the generator's own name mapping is not used for its points")
                    out.append(("-", lambda x: x[0] == "batch"))
                if flag(rs, "stopped"):
                    ctx.ob("stop-obeyed", f"{con}: sends", False, ev.where(), "points are sent after a stop")
            if ps != "send":
                out.append(("-", lambda x: x[0] in ("last", "mail", "idle", "looked")))
            if flag(rs, "stopped") and ps != "send":
                ctx.ob("stop-obeyed", f"{con}: reads", False, ev.where(), "another message is waited for after a stop")
            if flag(rs, "final"):
                ctx.ob("finished", f"{con}: order", False, ev.where(), "messages are exchanged after the generator was finalized")
            return out
        if g in ("suggest", "suggest_numpy"):
            settled(rs, ev, "points are asked for")
            if flag(rs, "stopped"):
                ctx.ob("stop-obeyed", f"{con}: asks", False, ev.where(), "points are asked for after a stop")
            if flag(rs, "batch"):
                ctx.ob("points-sent", f"{con}: every batch", False, ev.where(), "a batch of points is dropped")
            if threaded and flag(rs, "last"):
                ctx.ob("no-waiting", f"{con}: asks", bool(flag(rs, "has points")), ev.where(), "waits for points although none may be there: results and stops of the manager are not passed on meanwhile")
            return [("+", ("batch", "")), ("+", ("asking", "")), ("-", lambda x: x[0] == "has points")]
        if g == "suggest_updates":
            settled(rs, ev, "updates are asked for")
            return [("+", ("update", u)) for u in UPS] if ups == "some" else None
        if ev.kind == "callret" and ev.name in ("suggest_numpy", "suggest"):
            return [("-", lambda x: x[0] == "asking")]
        if g in ("ingest", "ingest_numpy"):
            a = list(ev.args or ())
            v = a[0] if a else (ev.kw or {}).get("results")
            tag = a[1] if len(a) > 1 else (ev.kw or {}).get("tag")
            has = v is not None and mentions(v, lambda t: t in (ROWS, CALC))
            owed = flag(rs, "owed")
            if has:
                src = CALC if mentions(v, lambda t: t == CALC) else ROWS
                mine = [x for x in owed if x[2] == src]
                ctx.ob("rows-given", f"{con}: once", bool(mine), ev.where(), "rows are given to the generator twice")
                conv = "map_numpy_array" if threaded else "np_to_list_dicts" if not array else None
                whole = v == src if conv is None else mentions(v, lambda t: (callname(t) or "").endswith(conv) and t[2] and t[2][0] == src)
                if conv is None and v != src:
                    ctx.assumption(f"{con}: {show(v)[:80]} is the rows received")
                    whole = True
                if conv and whole:
                    ctx.ob("rows-given", f"{con}: mapping", all(mapped(t) for t in subterms(v) if (callname(t) or "").endswith(conv)), ev.where(), "the generator's own name mapping is not used for the rows it is given")
                ctx.ob("rows-given", f"{con}: converted", whole, ev.where(), f"the rows are given without the conversion ({conv}) this kind of generator needs" if conv else "")
                out.append(("-", lambda x: x[0] == "owed" and x[2] == src))
            elif not threaded or tag is None or tag not in (STOP, PSTOP):
                ctx.ob("rows-given", f"{con}: nothing given", False, ev.where(), "the generator is given rows that do not exist")
            if threaded:
                stop = tag in (STOP, PSTOP)
                stopped = bool(flag(rs, "stopped"))
                if stop:
                    ctx.ob("stop-obeyed", f"{con}: stops only when told", stopped, ev.where(), "the generator is stopped although the manager did not send a stop")
                    out.append(("+", ("told", "")))
            return out
        if g == "result":
            settled(rs, ev, "the generator's result is awaited")
            ctx.ob("stop-obeyed", f"{con}: stop before waiting", bool(flag(rs, "told")) or bool(flag(rs, "asking")), ev.where(),
                   "the generator's result is awaited although it was not told to stop: it never comes")
            return out
        if g == "finalize":
            settled(rs, ev, "the generator is finalized")
            ctx.ob("finished", f"{con}: finalize once", not flag(rs, "final"), ev.where(), "the generator is finalized twice")
            return [("+", ("final", ""))]
        return out or None

    # a message's value carries what is owed for it
    eng_rule = Flags(label=label, decide=decide, raises=raises, result=result, havoc=False,
                     inline=lambda g: g.cls is not None and g.cls.qual.startswith(RUN), relevant=lambda a: False)
    rs0 = frozenset({("owed", "the initial history", CALC)}) if h0 == "rows" else frozenset()
    args = {"calc_in": NONE} if h0 == NONE else {}
    res = ctx.engine(eng_rule).run(fi, args=args, cls=c, rs=rs0)
    if not res["return"]:
        ctx.ob("finished", con, False, ctx.where(fi), "never returns")
    for st in res["raise"] if fail else ():
        rs = st.rs or frozenset()
        if fail in str(st.exc) and flag(rs, "last"):
            ctx.ob("finished", f"{con}: ends by itself", False, ctx.where(fi), "a generator that returns by itself fails the worker: its result is lost")
    for st, v in res["return"]:
        rs = st.rs or frozenset()
        for x in flag(rs, "update"):
            ctx.ob("points-sent", f"{con}: updates", False, ctx.where(fi), "an update to earlier points is dropped")
        for x in flag(rs, "owed"):
            ctx.ob("rows-given", f"{con}: {x[1]}", False, ctx.where(fi), f"the rows of {x[1]} are never given to the generator")
        ctx.ob("finished", f"{con}: finalized", bool(flag(rs, "final")), ctx.where(fi), "the generator is not finalized")
        ctx.ob("finished", f"{con}: status", v[0] in ("tuple", "list") and v[1] and v[1][-1] == FIN or v[0] not in ("tuple", "list"), ctx.where(fi), "the worker does not report a finished persistent generator")
        if not fail:
            ctx.ob("stop-obeyed", f"{con}: ends", bool(flag(rs, "stopped")) , ctx.where(fi), "the generator's loop ends without a stop")


@check("G01", "typestate of the generator object over every history of calls, message typestate of every suggest/ingest runner over stops and rows, field correspondence of the name mappings")
def g01(ctx):
    p = ctx.p
    C0 = p.cls(G + "PersistentGenInterfacer")
    typestate(ctx, C0)
    handing_over(ctx, C0)
    runners(ctx)
