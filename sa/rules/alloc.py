"""A01-A04: the allocation support class and the shipped allocation functions."""
import ast
import itertools

from . import check
from .common import *

AS = LIB + "tools.alloc_support:AllocSupport"
W = A(SELF, "W")
IFR = LIB + "resources.scheduler:InsufficientFreeResources"


def col_any(t, base):
    """Existence test over a whole column -> field name, or None."""
    n = callname(t)
    x = None
    if t[0] == "any":
        x = t[1]
    elif n in ("any", "numpy.any", "sum", "numpy.sum", "numpy.count_nonzero", ".any", ".sum", "max", "numpy.max", ".max") and t[2]:
        x = t[2][0]
    if x is None:
        return None
    for y in (x, x[2][0] if callname(x) in WRAP and x[2] else x):
        if y[0] == "i" and y[1] == base and is_strc(y[2]):
            return y[2][2]
        if y[0] == "comp" and y[2][0] == "i" and y[2][1][0] == "elem" and y[2][1][1] == base and is_strc(y[2][2]) and not y[4]:
            return y[2][2][2]
    return None


def row_oracle(leaf):
    def oracle(atom, st, eng):
        try:
            v = rowval(atom, leaf)
        except Unk:
            return None
        return bool(v) if not isinstance(v, tuple) else None
    return oracle


@check("A01", "truth table of the availability query: path-sensitive abstract interpretation per valuation of its arguments and of one worker's state")
def a01(ctx):
    ctx.rule("table", "a worker is returned exactly when idle (or in active receive when asked), of the asked persistent state, and of the asked zero-resource / "
             "generator-worker kind where workers of that kind exist")
    ctx.rule("refused", "an active-receive query without a persistent state raises")
    ctx.rule("ids", "the query returns worker ids")
    ctx.rule("counts", "the helpers counting generators look at exactly the active / persistent generators")
    p = ctx.p
    fi = p.meth(AS, "avail_worker_ids")
    need = ("persistent", "active_recv", "zero_resource_workers", "gen_workers")
    if not set(need) <= set(fi.params):
        raise AnalysisBroken("avail_worker_ids: parameters changed")
    rows = []
    for pe, ar, wa, wr, wp in itertools.product((None, 0, 1, 2), (False, True), (0, 1, 2), (False, True), (0, 1, 2)):
        if wr and (not wa or not wp):
            continue      # active receive implies active and persistent
        rows.append((pe, ar, None, None, False, False, wa, wr, wp, False, False))
    for z, g, ez, eg, wz, wg in itertools.product((None, False, True), (None, False, True), (0, 1), (0, 1), (0, 1), (0, 1)):
        if wz and not ez or wg and not eg:
            continue
        for pe, ar, wa, wr, wp in ((None, False, 0, False, 0), (2, False, 0, False, 2), (2, True, 2, True, 2)):
            rows.append((pe, ar, z, g, bool(ez), bool(eg), wa, wr, wp, bool(wz), bool(wg)))
    und = 0
    verd = []
    for r in rows:
        pe, ar, z, g, ez, eg, wa, wr, wp, wz, wg = r
        par = dict(zip(need, (pe, ar, z, g)))
        wrk = {"active": wa, "active_recv": wr, "persis_state": wp, "zero_resource_worker": wz, "gen_worker": wg}

        def isrow(b):
            return b[0] == "elem" and b[1] == W or b[0] == "i" and b[1] == W and b[2][0] in ("elem", "idx")

        def leaf(t):
            if t[0] == "p" and t[1] in par:
                return par[t[1]]
            if t[0] == "i" and is_strc(t[2]) and t[2][2] in wrk and (isrow(t[1]) or t[1] == W):
                return wrk[t[2][2]]
            if t[0] == "elem" and t[1][0] == "i" and t[1][1] == W and is_strc(t[1][2]) and t[1][2][2] in wrk:
                return wrk[t[1][2][2]]
            f = col_any(t, W)
            if f == "zero_resource_worker":
                return ez
            if f == "gen_worker":
                return eg
            return NOVAL

        def value(t, st, eng):
            if t[0] == "i" and is_strc(t[2]) and t[2][2] in wrk and isrow(t[1]):
                return C(wrk[t[2][2]])
            return None
        und0 = []

        def oracle(atom, st, eng):
            try:
                return bool(rowval(atom, leaf))
            except Unk:
                if mentions(atom, lambda x: x[0] == "i" and is_strc(x[2]) and x[2][2] in wrk):
                    und0.append(atom)
                return None
        ids = lambda t: t[0] == "i" and t[2] == C("worker_id") and mentions(t, lambda x: x == W) or t[0] == "elem" and mentions(t, lambda x: x == C("worker_id"))
        lab = lambda ev, st, eng: ("ap", ev.args[-1], ev.where()) if ev.kind == "mutate" and ev.name in ("append", "add", "insert", "extend") and ev.args else \
            (("rm", ev.args[-1], ev.where()) if ev.kind == "mutate" and ev.name in ("remove", "discard") and ev.args else None)
        rule = Labels(lab, oracle=oracle, value=value)
        res = ctx.engine(rule).run(fi, args={k: C(v) for k, v in par.items()})
        con = (f"query(persistent={pe}, active_recv={ar}, zero_resource={z}, gen={g}) worker(active={wa}, active_recv={wr}, persis_state={wp}, "
               f"zero_resource={wz}, gen={wg}) zero-resource workers exist={ez}, gen workers exist={eg}")
        if ar and not pe:
            ctx.ob("refused", con, not res["return"], ctx.where(fi), "an active-receive query without a persistent state is not refused: " + con)
            continue
        want = (wr if ar else wa == 0) and (pe is None or wp == pe) and (not ez or z is None or wz == z) and (not eg or g is None or wg == g)
        kept = None
        if res["raise"] and not res["return"]:
            verd.append((con, "raise", want))
            continue
        if not und0:
            ks = set()
            for st, t in res["return"]:
                ap = [x for x in st.rs or () if x[0] == "ap"]
                if ap:
                    for x in ap:
                        ctx.ob("ids", "appended value", ids(x[1]), x[2], f"{show(x[1])} is returned instead of the worker id")
                    ks.add(True)
                elif any(x[0] == "rm" for x in st.rs or ()):
                    ks.add(None)
                else:
                    base = strip_arr(t)
                    if base[0] == "comp" and base[2] == NONE:
                        ks.add(False)      # the filter is false for this worker
                    elif base[0] == "comp":
                        cs = base[4] if isinstance(base[4], tuple) else ()
                        cs = cs if cs and isinstance(cs[0], tuple) else ((cs,) if cs else ())
                        try:
                            ks.add(all([bool(rowval(c, leaf)) for c in cs]))
                        except Unk:
                            ks.add(None)
                        ctx.ob("ids", "listed value", ids(base[2]), ctx.where(fi), f"{show(base[2])} is returned instead of the worker id")
                    elif base[0] == "i" and base[2] == C("worker_id") and base[1][0] == "i" and base[1][1] == W:
                        try:
                            ks.add(rowsel(base[1][2], leaf))
                        except Unk:
                            ks.add(None)
                    elif base[0] == "new":
                        ks.add(False)
                    else:
                        ks.add(None)
            # states that did not enter the loop at all carry no append
            kept = True if True in ks else (None if None in ks else False)
        verd.append((con, kept, want))
    live = any(k is True for _, k, _ in verd)
    for con, kept, want in verd:
        und += kept is None or not live
        ctx.ob("table", con, kept is None or not live or kept == want, ctx.where(fi),
               ("the query raises for " if kept == "raise" else ("the worker is returned although it should not be: " if kept else "the worker is left out: ")) + con)
    if und:
        ctx.assumption(f"{und} rows of the availability table are not decided for this form of the code")
    ctx.floor("rows", len(verd), 200)

    gen = K(p, "EVAL_GEN_TAG")
    for nm, field, agg in (("count_gens", "active", "sum"), ("test_any_gen", "active", "any"), ("count_persis_gens", "persis_state", "sum")):
        f = p.meth(AS, nm)
        res = ctx.engine(Rule()).run(f)
        for st, t in res["return"]:
            x = t
            while callname(x) in ("int", "bool") and x[2]:
                x = x[2][0]
            arg = x[1] if x[0] in ("any", "all") else (x[2][0] if x[0] == "call" and x[2] else None)
            if arg is None or arg[0] == "comp":
                continue
            kind = x[0] if x[0] in ("any", "all") else (callname(x) or "").split(".")[-1]
            if kind == "count_nonzero":
                kind = "sum"
            for v in (0, 1, 2):
                for other in (0, 1, 2):
                    try:
                        got = bool(rowval(arg, lambda t: (v if t == I(W, field) else (other if t[0] == "i" and t[1] == W and is_strc(t[2]) else NOVAL))))
                    except Unk:
                        continue
                    ctx.ob("counts", f"{nm} {field}={v}", got == (v == gen[2]), ctx.where(f), f"a worker with {field}={v} is {'' if got else 'not '}counted")
            ctx.ob("counts", f"{nm} aggregate", kind == agg or kind not in ("any", "all", "sum"), ctx.where(f), f"the aggregate is {kind}")


# ---------------------------------------------------------------------------------------------- A04
def vec1(t, leaf):
    """Values of an array term over a one-row history: [] or [v]."""
    if t[0] == "i" and is_strc(t[2]) and t[1][0] == "i" and not is_strc(t[1][2]) and t[1][2][0] != "s":
        return vec1(mk_strip(t[1][1], t[2]), leaf) if rowsel(t[1][2], leaf) else []
    if t[0] == "i" and not is_strc(t[2]) and t[2][0] != "s" and leaf(t) is NOVAL and not is_c(t[2]):
        return vec1(t[1], leaf) if rowsel(t[2], leaf) else []
    if t[0] == "u" and t[1] in ("~", "not"):
        return [not x for x in vec1(t[2], leaf)]
    if t[0] == "not":
        return [not x for x in vec1(t[1], leaf)]
    if callname(t) in ("numpy.logical_not", "numpy.invert"):
        return [not x for x in vec1(t[2][0], leaf)]
    return [rowval(t, leaf)]


def mk_strip(b, f):
    return ("i", b, f)


def val1(t, leaf):
    """Scalar value of an aggregate over a one-row history."""
    n = callname(t)
    if t[0] == "t":
        return bool(val1(t[1], leaf))
    if t[0] == "not":
        return not val1(t[1], leaf)
    if n in ("bool", "numpy.bool_", "int") and t[2]:
        return val1(t[2][0], leaf)
    if t[0] in ("all", "any"):
        return (all if t[0] == "all" else any)(vec1(t[1], leaf))
    if n in ("all", "numpy.all", ".all"):
        return all(vec1(t[2][0], leaf))
    if n in ("any", "numpy.any", ".any"):
        return any(vec1(t[2][0], leaf))
    if n in ("sum", "numpy.sum", ".sum", "numpy.count_nonzero"):
        return sum(int(x) for x in vec1(t[2][0], leaf))
    if t[0] == "len":
        return len(vec1(t[1], leaf))
    if t[0] == "cmp":
        def lf(x):
            v = leaf(x)
            if v is not NOVAL:
                return v
            if x[0] in ("all", "any", "len") or x[0] == "call":
                try:
                    return val1(x, leaf)
                except Unk:
                    pass
            return NOVAL
        return rowval(t, lf)
    if t[0] in ("and", "or"):
        vs = [val1(x, leaf) for x in t[1]]
        return all(vs) if t[0] == "and" else any(vs)
    return rowval(t, leaf)


def is_ceil(t, n, u):
    """t is ceil(n / u)?  True / False (a recognised other quotient) / None."""
    fl = ("b", "//", n, u)
    if t[0] == "b" and t[1] == "+":
        for x, y in ((t[2], t[3]), (t[3], t[2])):
            if x == fl:
                y = y[2][0] if callname(y) in ("int", "bool") and y[2] else y
                r = ("b", "%", n, u)
                if y in (mk_cmp("<", C(0), r), mk_not(mk_cmp("==", r, C(0))), truthy(r)) or y == ("not", ("not", r)):
                    return True
                return False if is_c(y) or y[0] == "cmp" else None
    if t == fl:
        return False
    if t[0] == "u" and t[1] == "-" and t[2] == ("b", "//", ("u", "-", n), u):
        return True
    if t[0] == "b" and t[1] == "//" and t[3] == u:
        return lin_eq(t[2], ("b", "-", ("b", "+", n, u), C(1)))
    x = t[2][0] if callname(t) == "int" and t[2] else t
    if callname(x) in ("numpy.ceil", "math.ceil") and x[2]:
        return x[2][0] == ("b", "/", n, u)
    if callname(x) in ("numpy.floor", "math.floor", "round"):
        return False
    return None


@check("A04", "path-sensitive abstract interpretation of the work-unit builders, a truth table of the resource request, and one-row evaluation of the array helpers")
def a04(ctx):
    ctx.rule("unit", "each builder returns a unit with deduplicated fields, rows as an array, the given persis_info, its own tag and the libE_info that holds rows (and batch size)")
    ctx.rule("numbered", "a non-persistent generator is numbered once, with the advanced counter, after its resources were obtained; a persistent one is not")
    ctx.rule("team", "with resource management on and no team given, a non-persistent worker gets the scheduled team, a persistent one an empty team; a given team (also empty) is kept")
    ctx.rule("request", "the request is the largest requirement among the rows, in whole sets (rounded up), with GPUs exactly when asked for")
    ctx.rule("schedule", "an unspecific request tries non-GPU sets first and falls back only if those are insufficient; other failures and the fallback's own are passed on")
    ctx.rule("all-table", "all started / ended / informed hold exactly when every expected, not excluded point has the mark")
    p = ctx.p
    upd = p.meth(AS, "_update_rset_team")
    cnt = A(("cls", AS), "gen_counter")
    sites = 0
    for nm, tag in (("sim_work", "EVAL_SIM_TAG"), ("gen_work", "EVAL_GEN_TAG")):
        fi = p.meth(AS, nm)
        info = P(fi.node.args.kwarg.arg) if fi.node.args.kwarg else None
        if info is None:
            raise AnalysisBroken(f"{nm} takes no keyword arguments any more")
        for persis in (False, True):
            def oracle(atom, st, eng):
                if atom[0] == "t" and atom[1][0] == "i" and atom[1][2] == C("persis_state"):
                    return persis
                if atom[0] == "cmp" and atom[1] == "==" and atom[2][0] == "i" and atom[2][2] == C("persis_state") and is_c(atom[3]):
                    return None if persis and atom[3][2] else (not persis if atom[3][2] == 0 else False)

            def label(ev, st, eng):
                if ev.kind == "call" and ev.name == "_update_rset_team":
                    return ("upd", tuple(sorted((k, v) for k, v in args_of(ev, upd).items())), ev.where())
                if ev.kind == "store" and ev.loc == cnt:
                    return ("cnt", ev.value, ev.where())

            def value(t, st, eng):
                if t == cnt:
                    v = [x for x in st.rs or () if x[0] == "cnt"]
                    return v[-1][1] if v else ("sym", "counter")
            rule = Seq(label, keep=True, oracle=oracle, value=value, havoc=False,
                       inline=lambda f, e: f.name not in ("_update_rset_team", "avail_worker_ids", "extract_H_ranges"),
                       relevant=lambda a: not mentions(a, lambda x: callname(x) is not None and "extract" in callname(x)))
            res = ctx.engine(rule).run(fi)
            con = f"{nm} ({'persistent' if persis else 'not persistent'} worker)"
            for st, t in res["return"]:
                sites += 1
                g = lambda k: st.heap.get(("i", t, C(k))) if t[0] == "new" else None
                if t[0] != "new" or t[2] != "dict":
                    ctx.assumption(f"{nm} returns a unit that is not built in it: not decided")
                    continue
                for k in ("H_fields", "persis_info", "tag", "libE_info"):
                    ctx.ob("unit", f"{con} has {k}", g(k) is not None, ctx.where(fi), f"the work unit has no {k}")
                ctx.ob("unit", f"{con} tag", g("tag") in (None, K(p, tag)), ctx.where(fi), f"the tag of a {nm} unit is {show(g('tag') or NONE)}")
                ctx.ob("unit", f"{con} persis_info", g("persis_info") in (None, P("persis_info")), ctx.where(fi), "the given persis_info is not passed on")
                ctx.ob("unit", f"{con} libE_info", g("libE_info") in (None, info) or st.heap.get(("copyof", g("libE_info"))) == info or
                       callname(g("libE_info")) in ("dict", "copy.copy", ".copy") or g("libE_info")[0] == "new", ctx.where(fi), "libE_info does not hold the given entries")
                hf = g("H_fields")
                if hf is not None:
                    dd = P("H_fields")
                    if hf == dd:
                        ok = any(v and a == mk_cmp("==", ("len", dd), ("len", ("call", ("g", "set"), (dd,), ()))) for a, v in st.facts.items())
                        ok = ok or any(mentions(a, lambda x: callname(x) == "set") for a in st.facts)
                    else:
                        ok = mentions(hf, lambda x: callname(x) in ("set", ".fromkeys", "frozenset", "numpy.unique", "sorted", "dict.fromkeys") or x[0] == "comp") or hf[0] in ("phi", "new")
                    ctx.ob("unit", f"{con} fields", ok, ctx.where(fi), f"duplicate fields are not removed: H_fields is {show(hf)}")
                li = g("libE_info") or info
                hr = st.heap.get(("i", info, C("H_rows"))) or st.heap.get(("i", li, C("H_rows")))
                ctx.ob("unit", f"{con} rows", hr is not None and (hr[0] == "phi" or mentions(hr, lambda x: (callname(x) or "").startswith("numpy.")) and mentions(hr, lambda x: x == P("H_rows"))),
                       ctx.where(fi), f"H_rows is {'missing' if hr is None else 'not made an array: ' + show(hr)}")
                u = [x for x in st.rs or () if x[0] == "upd"]
                ctx.ob("team", f"{con} requested once", len(u) == 1, ctx.where(fi), f"the resource team is set {len(u)} times")
                for x in u:
                    d = dict(x[1])
                    want = {"libE_info": info, "wid": P("wid"), "H": P("H") if nm == "sim_work" else NONE, "H_rows": P("H_rows") if nm == "sim_work" else NONE}
                    bad = [k for k, v in want.items() if k in upd.params and d.get(k, NONE) != v and not (k == "libE_info" and d.get(k, NONE)[0] == "new") and
                           not (k == "H_rows" and nm == "sim_work" and mentions(d.get(k, NONE), lambda y: y == v))]
                    ctx.ob("team", f"{con} arguments", not bad, x[2], f"{', '.join(bad)} is not what the resource request is for")
                c = [x for x in st.rs or () if x[0] == "cnt"]
                gc = st.heap.get(("i", info, C("gen_count"))) or st.heap.get(("i", li, C("gen_count")))
                if nm == "gen_work" and not persis:
                    ok = len(c) == 1 and lin_diff(c[0][1], ("sym", "counter")) == ({}, 1)
                    ctx.ob("numbered", con, ok, ctx.where(fi), f"the generator counter is {'advanced ' + str(len(c)) + ' times' if len(c) != 1 else 'set to ' + show(c[0][1])}")
                    ctx.ob("numbered", con + " value", gc is not None and (not c or gc == c[-1][1]), ctx.where(fi), "the unit does not carry the new generator number")
                    if u and c:
                        order = [x[0] for x in st.rs if x[0] in ("upd", "cnt")]
                        ctx.ob("numbered", con + " order", order.index("upd") < order.index("cnt"), c[0][2], "the generator is numbered before its resources are obtained: a refused unit uses up a number")
                    ctx.ob("unit", con + " batch size", (("i", info, C("batch_size")) in st.heap) or ("i", li, C("batch_size")) in st.heap, ctx.where(fi), "batch_size is missing")
                else:
                    ctx.ob("numbered", con, not c and gc is None, ctx.where(fi), "a number is used up without a new generator")
    ctx.floor("builder paths", sites, 4)

    # team table
    info, wid = P(upd.params[1]), P(upd.params[2])
    asg = p.meth(AS, "assign_resources")
    tl = ("i", info, C("rset_team"))
    n = 0
    for mr, team, ps, hn in itertools.product((0, 1), ("absent", "none", "empty", "list"), (0, 1), (0, 1)):
        def decide(atom):
            if atom == ("t", A(SELF, "manage_resources")):
                return bool(mr)
            if atom == ("cmp", "in", C("rset_team"), info):
                return team != "absent"
            x = atom[1] if atom[0] == "t" else (atom[2] if atom[0] == "cmp" else None)
            if x is not None and isinstance(x, tuple) and x and (x == tl or callname(x) == ".get" and C("rset_team") in x[2]):
                if atom[0] == "t":
                    return team == "list"
                if atom[1] == "==" and atom[3] == NONE:
                    return team in ("absent", "none")
            if x is not None and isinstance(x, tuple) and x and x[0] == "i" and x[2] == C("persis_state"):
                return bool(ps) if atom[0] == "t" else (None if atom[1] != "==" or not is_c(atom[3]) else (not ps if atom[3][2] == 0 else None))
            if atom[0] == "cmp" and atom[1] == "==" and atom[3] == NONE and atom[2] in (P("H"), P("H_rows")):
                return not hn

        def label(ev, st, eng):
            if ev.kind == "call" and ev.name == "assign_resources":
                return ("asg", tuple(sorted(args_of(ev, asg).items())), ev.where())
            if ev.kind == "call" and ev.name in ("_req_resources_sim", "_req_resources_gen"):
                return ("req", ev.name)
            if ev.kind == "store" and ev.loc == tl:
                return ("set", ev.value, st.heap.get(("content", ev.value)), ev.where())
        tb = Table(decide, label=label, inline=lambda f, e: f.name not in ("assign_resources", "_req_resources_sim", "_req_resources_gen"), havoc=False)
        tb.watch = lambda a: mentions(a, lambda x: x in (info, C("persis_state"), A(SELF, "manage_resources")))
        res = ctx.engine(tb).run(upd, args={} if hn else {k: NONE for k in ("H", "H_rows") if k in upd.params})
        con = f"managed={mr} team {team} persistent={ps} rows={hn}"
        if tb.undecided:
            ctx.assumption(f"team table row not decided ({show(tb.undecided[0])})")
            continue
        for st, _ in res["return"]:
            n += 1
            rs = st.rs or ()
            a = [x for x in rs if x[0] == "asg"]
            s = [x for x in rs if x[0] == "set"]
            empty = lambda x: x[1][0] in ("new", "list", "tuple") and (x[2] is None or not x[2][1]) and not (x[1][0] in ("list", "tuple") and x[1][1])
            if not mr or team in ("empty", "list"):
                ctx.ob("team", con, not a and not s, ctx.where(upd), "a team is assigned although " + ("one was given" if mr else "resources are not managed") + f" ({con})")
            elif ps:
                ctx.ob("team", con, not a, ctx.where(upd), "resources are assigned for a worker that is already persistent")
                ctx.ob("team", con + " empty", len(s) == 1 and empty(s[0]), ctx.where(upd), "a persistent worker's unit does not carry an empty team")
            else:
                ok = len(a) == 1 and len(s) == 1 and callname(s[0][1]) is not None and mentions(s[0][1], lambda x: callname(x) in (".assign_resources",) or (callname(x) or "").endswith("assign_resources"))
                ctx.ob("team", con, ok, ctx.where(upd), f"the unit's team is not the one scheduled for it ({con})")
                rq = {x[1] for x in rs if x[0] == "req"}
                if rq:
                    ctx.ob("team", con + " kind", rq == {"_req_resources_sim" if hn else "_req_resources_gen"}, ctx.where(upd), f"the request is computed by {sorted(rq)}")
                    for x in a:
                        d = dict(x[1])
                        r0, r1 = d.get("rsets_req"), d.get("use_gpus")
                        isr = lambda t, i: t is not None and (t[0] == "i" and t[2] == C(i) or t[0] in ("phi",))
                        ctx.ob("team", con + " request", isr(r0, 0) and isr(r1, 1), x[2], "the request computed is not the one scheduled")
    ctx.floor("team rows", n, 8)

    # request
    fr = p.meth(AS, "_req_resources_sim")
    H, rows = P("H"), P("H_rows")
    names = lambda f: ("cmp", "in", C(f), A(H, "dtype", "names"))
    nreq = 0
    fld = lambda f: ("i", ("i", H, rows), C(f))
    conv = p.meth(AS, "_convert_rows_to_rsets")
    for rs_, np_, ug, ng in itertools.product((0, 1), (0, 1), (None, False, True), (None, 0, 1)):
        def decide(atom):
            for f, v in (("resource_sets", rs_), ("num_procs", np_), ("use_gpus", ug is not None), ("num_gpus", ng is not None)):
                if names_atom(atom, f):
                    return bool(v)
            if mentions(atom, lambda x: x == C("use_gpus")) and atom[0] == "t" and (atom[1][0] in ("any",) or callname(atom[1]) in ("numpy.any", "any", ".any", "max", "numpy.max")):
                return ug
            if mentions(atom, lambda x: x == C("num_gpus")):
                if atom[0] == "cmp" and atom[1] == "<0" and len(atom[2]) == 1:
                    return {(-1, 0): bool(ng), (1, 0): False, (-1, 1): bool(ng), (1, -1): not ng}.get((atom[2][0][1], atom[3]))
                if atom[0] == "t":
                    return bool(ng)
                if atom[0] == "cmp" and atom[1] == "==" and atom[3] == C(0):
                    return not ng

        def call_value(ev, st, eng):
            if ev.name == "_convert_rows_to_rsets":
                a = args_of(ev, conv, bound=False)
                u = a.get("units_per_rset") or NONE
                if a.get("H") != H or a.get("H_rows") != rows:
                    return P("@wrong")
                return ("sym", "conv", a.get("units_str", NONE), u[2] if u[0] == "a" else "?")
        tb = Table(decide, inline=lambda f, e: f.name not in ("_convert_rows_to_rsets", "_convert_to_rsets"), havoc=False)
        tb.call_value = call_value
        tb.watch = lambda a: mentions(a, lambda x: x in (C("use_gpus"), C("num_gpus"), C("num_procs"), C("resource_sets")))
        res = ctx.engine(tb).run(fr)
        if tb.undecided:
            ctx.assumption(f"requirement table row not decided ({show(tb.undecided[0])})")
            continue
        want = fld("resource_sets") if rs_ else (("sym", "conv", C("num_procs"), "procs_per_rset") if np_ else C(1))
        wg = True if ng else (ug if ug is not None else None)
        con = f"resource_sets={rs_} num_procs={np_} use_gpus={ug} num_gpus={ng}"
        gsym = ("sym", "conv", C("num_gpus"), "gpus_per_rset")
        for st, t in res["return"]:
            if t[0] != "tuple" or len(t[1]) != 2:
                continue
            nreq += 1
            num, use = t[1]
            ctx.ob("request", con + " gpus", not is_c(use) or use[2] is wg, ctx.where(fr), f"GPU use becomes {show(use)}, expected {wg}")
            parts = list(num[2]) if callname(num) in ("max", "numpy.maximum") and len(num[2]) == 2 else [num]
            base = [x for x in parts if x != gsym]
            okg = ng is None or gsym in parts or num[0] in ("phi",)
            ctx.ob("request", con + " gpu sets", okg, ctx.where(fr), "the sets needed for GPUs are not counted in")
            b = base[0] if len(base) == 1 else None
            if b is None or b[0] == "phi":
                continue
            if rs_:
                mx = callname(b) in ("numpy.max", "max", "numpy.amax", ".max", "numpy.nanmax")
                other = callname(b) in ("numpy.min", "min", "numpy.sum", "sum", ".min", ".sum", "numpy.mean", "len", "numpy.argmax") or b[0] in ("c", "sym", "i")
                ctx.ob("request", con + " sets", (mx and mentions(b, lambda x: x == want)) or not other and not mx, ctx.where(fr), f"the sets requested are {show(b)}")
            else:
                ctx.ob("request", con + " sets", b == want or b[0] not in ("c", "sym", "p"), ctx.where(fr), f"the sets requested are {show(b)}, expected {show(want)}")
    if not nreq:
        ctx.assumption("the sim requirement is computed in a form that is not decided")
    fc = p.meth(AS, "_convert_to_rsets")
    nu, un = P("num_units"), P("units_per_rset")
    if {"num_units", "units_per_rset"} <= set(fc.params):
        for pos in (True, False):
            def decide(atom):
                if atom[0] == "cmp" and atom[1] == "<0" and len(atom[2]) == 1 and atom[2][0][0] == nu:
                    return {(-1, 0): pos, (1, 0): False, (-1, 1): pos, (1, -1): not pos}.get((atom[2][0][1], atom[3]))
                if atom == ("t", nu):
                    return pos
            res = ctx.engine(Table(decide)).run(fc)
            for st, t in res["return"]:
                t = t if t[0] != "phi" else st.env.get("num_rsets_req", t)
                r = is_ceil(t, nu, un) if pos else (t == C(0) or None if not is_c(t) else t[2] == 0)
                ctx.ob("request", f"whole sets, units{'>' if pos else '='}0", r is not False, ctx.where(fc), f"the number of sets for the units asked is {show(t)}, not rounded up")
    fv = p.meth(AS, "_convert_rows_to_rsets")
    res = ctx.engine(Table(lambda a: None, label=lambda ev, st, e: ("c", ev.args, ev.kw) if ev.kind == "call" and ev.name == "_convert_to_rsets" else None,
                           inline=lambda f, e: f.name != "_convert_to_rsets")).run(fv)
    for st, t in res["return"]:
        for x in st.rs or ():
            vals = list(x[1]) + list((x[2] or {}).values())
            agg = [callname(y) for v in vals for y in subterms(v) if y[0] == "call" and mentions(y, lambda z: z == rows) and callname(y) not in ("int", None)]
            ctx.ob("request", "largest of the rows", not agg or any(a.split(".")[-1] in ("max", "amax", "nanmax", "sorted", "maximum") for a in agg), ctx.where(fv), f"the rows' requirement is {agg}, not their largest")

    # schedule
    rq, ug = P("rsets_req"), P("use_gpus")
    nsch = 0
    IRE = LIB + "resources.scheduler:InsufficientResourcesError"
    for has, use in itertools.product((0, 1), (None, True, False)):
        def decide(atom):
            if atom == mk_cmp("==", A(SELF, "resources"), NONE):
                return not has
            if atom == ("t", A(SELF, "resources")):
                return bool(has)

        def label(ev, st, eng):
            if ev.kind == "call" and ev.name == "assign_resources" and ev.base is not None and ev.base != SELF:
                v = list(ev.args)
                kw = dict(ev.kw or {})
                nm_ = ("rsets_req", "use_gpus", "user_params")
                kw.update(zip(nm_, v))
                return ("s", kw.get("rsets_req"), kw.get("use_gpus", NONE), kw.get("user_params"))
        for exc in (IFR, IRE, "builtins.ValueError"):
            tb = Table(decide, label=label, inline=lambda f, e: f.cls is not None and f.cls.qual == AS)
            tb.may_raise = lambda ev, st, eng: [exc] if ev.name == "assign_resources" and ev.base != SELF else False
            res = ctx.engine(tb).run(asg, args={"use_gpus": C(use)})
            con = f"resources={has} use_gpus={use} failure={exc.split(':')[-1]}"
            outs = {(tuple(x[2] for x in st.rs or ()), "ok") for st, t in res["return"]} | {(tuple(x[2] for x in st.rs or ()), "raise") for st in res["raise"]}
            if not has:
                ctx.ob("schedule", con, all(x[0] == () and x[1] == "ok" for x in outs), ctx.where(asg), "the scheduler is used although there are no resources")
                continue
            ok1 = [x for x in outs if x[1] == "ok"]
            seqs = {x[0] for x in outs}
            nsch += 1
            f1, n1 = C(False), C(use)
            if use is None:
                if exc.endswith("ValueError"):
                    good = {((f1,), "ok"), ((f1,), "raise")}
                else:
                    good = {((f1,), "ok"), ((f1, n1), "ok"), ((f1, n1), "raise")}
            else:
                good = {((n1,), "ok"), ((n1,), "raise")}
            ctx.ob("schedule", con, outs == good, ctx.where(asg), f"scheduler requests by GPU kind and outcome: {sorted((tuple(show(y) for y in x[0]), x[1]) for x in outs)}")
            for st, t in res["return"]:
                for x in st.rs or ():
                    ctx.ob("schedule", con + " request", x[1] == rq and x[3] in (P("user_params"), None), ctx.where(asg), "the scheduler is asked for something other than the request")
                ctx.ob("schedule", con + " result", callname(t) == ".assign_resources" or (t[0] == "call"), ctx.where(asg), f"the team returned is {show(t)}")
    # helpers
    for nm, field, excl in (("all_sim_started", "sim_started", lambda c, s: c), ("all_sim_ended", "sim_ended", lambda c, s: c and not s), ("all_gen_informed", "gen_informed", lambda c, s: c and not s)):
        fi = p.meth(AS, nm)
        for pf, lb in itertools.product((None, True, False), (0, 1)):
            low = P("low_bound")
            args = {} if lb else {"low_bound": NONE}
            if pf is None:
                args["pt_filter"] = NONE
            rule = Rule()
            rule.oracle = lambda a, st, e: (False if a in (mk_cmp("==", P("pt_filter"), NONE), mk_cmp("==", low, NONE)) else None)
            res = ctx.engine(rule).run(fi, args=args)
            sl = ("s", low, NONE, NONE)
            for st, t in res["return"]:
                und = True
                for c, s, f in itertools.product((False, True), repeat=3):
                    row = {"cancel_requested": c, "sim_started": s, field: f}
                    if field == "sim_started":
                        row[field] = f
                        if s != f:
                            continue
                    if field != "sim_started" and f and not s:
                        continue      # ended or informed implies started
                    unsl = []

                    def leaf(x):
                        if x[0] == "i" and is_strc(x[2]) and x[2][2] in row:
                            b = x[1]
                            if b == H or b == ("i", H, sl):
                                if lb and b == H:
                                    unsl.append("H")
                                return row[x[2][2]]
                        if x in (P("pt_filter"), ("i", P("pt_filter"), sl)):
                            if lb and x == P("pt_filter"):
                                unsl.append("pt_filter")
                            return bool(pf)
                        return NOVAL
                    try:
                        got = bool(val1(t, leaf))
                    except Unk:
                        continue
                    und = False
                    exp = (pf is False) or excl(c, s) or f
                    con = f"{nm} filter={pf} bound={lb} cancelled={c} started={s} {field}={f}"
                    ctx.ob("all-table", con, got == exp, ctx.where(fi), f"{nm} is {got} for a point with {con.split(' ', 1)[1]}")
                    ctx.ob("all-table", con + " bound", not unsl or len(set(unsl)) == 2 and not mentions(t, lambda x: x == sl), ctx.where(fi), f"the lower bound is not applied to {', '.join(sorted(set(unsl)))}")
                if und:
                    ctx.assumption(f"{nm}: not decided for this form of the code")


# ---------------------------------------------------------------------------------------------- A02, A03
H_ = P("H")
PI = P("persis_info")


def keys_read(fi):
    out = set()
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
            out.add(n.slice.value)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "get" and n.args and isinstance(n.args[0], ast.Constant):
            out.add(n.args[0].value)
        if isinstance(n, ast.Compare) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            out.add(n.left.value)
    return out


def unlist(t, st=None):
    """[x] / np.array([x]) -> x"""
    while True:
        s = strip_arr(t)
        if s[0] in ("list", "tuple", "clist") and len(s[1]) == 1:
            s = s[1][0]
        elif s[0] == "new" and st is not None:
            c = st.heap.get(("content", s))
            if c is not None and c[0] in ("tuple", "list") and len(c[1]) == 1:
                s = c[1][0]
        if s == t:
            return s
        t = s


def the_mask(rows):
    """The availability mask a selection of rows is drawn from, or None."""
    n = callname(rows)
    if n is not None and n.endswith("points_by_priority"):
        d = dict(rows[3])
        if "points_avail" in d:
            return d["points_avail"]
        a = [x for x in rows[2]]
        i = 2 if n.startswith(".") else 1
        return a[i] if len(a) > i else (a[-1] if a else None)
    if rows[0] == "i" and not is_strc(rows[2]):
        if callname(rows[1]) in ("numpy.where", "numpy.nonzero", ".nonzero"):
            return rows[1][2][0]
        return the_mask(rows[1])
    if n in ("numpy.flatnonzero", "numpy.where", "numpy.nonzero"):
        return rows[2][0]
    if n in ("min", "max", "numpy.min", "numpy.max", "next", "numpy.sort", "sorted", "int"):
        return the_mask(rows[2][0])
    return None


class AllocRun(Rule):
    """One pass over an allocation function.
    st.rs = (attempt, ops since the window opened, sources of units stored)
      attempt: None or (kind, worker, rows, state, where) with state in try / given / done / failed / restored"""
    cap = 60

    def __init__(self, ctx, fi, exc=IFR):
        self.ctx, self.fi, self.exc = ctx, fi, exc
        self.viol = []
        self.binds = {}
        self.loops = []
        self.units = self.stores = 0
        self.und = set()
        self.caught_it = False
        self._own = {}
        self.helpers = {g.name for g in ctx.p.funcs.values() if g.module is fi.module and g is not fi and g.name not in ("sim_work", "gen_work") and
                        any(method_name(c) in ("sim_work", "gen_work") for c in all_calls(g))}
        self.read = keys_read(fi)
        self._reach = reach_inline(ctx.p, "sim_work", "gen_work", "avail_worker_ids", "skip_canceled_points", "points_by_priority")

    # ---- engine hooks
    def inline(self, f, eng):
        if f.name == "skip_canceled_points":
            return True
        if f.cls is not None and f.cls.qual == AS:
            return f.name not in self.ctx.alloc_public
        return f.module.name == self.fi.module.name and self._reach(f, eng) or f.qual.startswith(self.fi.qual + ".<locals>")

    def relevant(self, a):
        if a[0] == "cmp" and a[1] == "in" and not is_c(a[2]):
            return a[3][0] == "new" and a[3][2] == "dict"
        return mentions(a, lambda x: x[0] == "c" and x[2] in self.KEYS or x[0] == "sym" and x[1] == "unit" or x == ("len", H_) or x == ("t", H_))

    KEYS = ("next_to_give", "cancel_requested", "gen_started", "first_call", "sim_started", "need_to_give")

    def avail(self, ev):
        f = self.ctx.p.meth(AS, "avail_worker_ids")
        d = args_of(ev, f)
        return ("sym", "avail") + tuple(d.get(k, NONE) for k in ("persistent", "active_recv", "zero_resource_workers", "gen_workers"))

    def call_value(self, ev, st, eng):
        if ev.name == "avail_worker_ids":
            return self.avail(ev)
        if ev.name in ("sim_work", "gen_work"):
            return ("sym", "unit", ev.name)
        if ev.name in ("difference", "difference_update"):
            return ("sym", "remaining")
        if ev.name == "combine_component_func":
            return P("@f")
        if ev.name in ("count_gens", "count_persis_gens", "test_any_gen"):
            return ("sym", ev.name)
        return None

    def running_gen(self, wid):
        """Is wid drawn from the idle persistent generators?"""
        s = self.source(wid)
        return bool(s) and all(x[2] == self.ctx.gen_tag for x in s)

    def may_raise(self, ev, st, eng):
        if ev.name in ("sim_work", "gen_work"):
            if "rset_team" in (ev.kw or {}) or self.running_gen(ev.args[0] if ev.args else NONE) or st.facts.get(("t", H_)) is False:
                return False
            return [self.exc]
        return False

    def oracle(self, atom, st, eng):
        if st.facts.get(("t", H_)) is False and atom[0] == "t" and atom[1][0] in ("any",) and mentions(atom, lambda x: x == H_):
            return False
        # a persistent generator that was started once is recorded from the first call on
        if atom[0] == "cmp" and atom[1] == "==" and atom[3] == NONE and mentions(atom[2], lambda x: x == C("gen_started")) or atom == ("cmp", "in", C("gen_started"), PI) or \
                atom[0] == "t" and mentions(atom, lambda x: x == C("gen_started")):
            fc = [v for a, v in st.facts.items() if mentions(a, lambda x: x == C("first_call")) and a[0] == "t"]
            if fc == [False]:
                return atom[0] != "cmp" or atom[1] == "in"
        return None

    # ---- sources of worker ids
    def source(self, t, seen=()):
        """Set of availability queries a worker id (or list of ids) may come from; None when not from one."""
        if t in seen:
            return frozenset()
        if t[0] == "sym" and t[1] == "avail":
            return frozenset([t])
        if t[0] == "elem":
            return self.source(t[1], seen)
        if t[0] == "i" and not is_strc(t[2]):
            return self.source(t[1], seen)
        n = callname(t)
        if n in ("list", "set", "sorted", "tuple", "reversed", "iter", "numpy.array", "next", "enumerate", "frozenset", "min", "max", ".copy", ".difference", ".pop", "numpy.random.permutation", "random.sample") and t[2]:
            return self.source(t[2][0], seen)
        if n in (".union", ".intersection"):
            r = [self.source(x, seen) for x in t[2]]
            return None if None in r else frozenset().union(*r)
        if t[0] == "b" and t[1] in ("|", "+"):
            a, b = self.source(t[2], seen), self.source(t[3], seen)
            return None if a is None or b is None else a | b
        if t[0] == "b" and t[1] in ("-", "&"):
            return self.source(t[2], seen)
        if t[0] == "comp":
            return self.source(t[2], seen) if t[2][0] in ("elem", "i") else (self.source(t[3], seen) if len(t) > 3 and isinstance(t[3], tuple) else None)
        if t[0] == "phi":
            vs = self.binds.get(t[2], set())
            r = [self.source(v, seen + (t,)) for v in vs if v != t]
            return None if not r or None in r else frozenset().union(*r)
        if t[0] in ("new", "list", "tuple", "clist"):
            return frozenset() if t[0] == "new" and t[2] in ("list", "set") else (frozenset() if not t[1] else None)
        return None

    def disjoint(self, a, b):
        """Two queries that cannot return the same worker."""
        pa, pb = a[2], b[2]
        if is_c(pa) and is_c(pb) and pa != NONE and pb != NONE and bool(pa[2] != pb[2]):
            return True
        return False

    def filtered_by_work(self, t, seen=()):
        """The list t excludes workers that already have a unit."""
        if t in seen:
            return True
        if t[0] == "comp" and any(mentions(c, lambda x: x[0] == "cmp" and x[1] == "in" and x[3][0] == "new") for c in (t[4] if isinstance(t[4], tuple) else ()) if isinstance(c, tuple)):
            return True
        if t[0] == "comp" and isinstance(t[4], tuple) and mentions(t[4], lambda x: x[0] == "cmp" and x[1] == "in" and x[3][0] == "new"):
            return True
        if t[0] in ("elem", "i"):
            return self.filtered_by_work(t[1], seen)
        if t[0] == "b" and t[1] == "-" or callname(t) == ".difference":
            return True
        if callname(t) in ("list", "sorted", "tuple", "set") and t[2]:
            return self.filtered_by_work(t[2][0], seen)
        if t[0] == "phi":
            vs = [v for v in self.binds.get(t[2], set()) if v != t]
            vs = [v for v in vs if not (v[0] in ("new",) or v[0] in ("list", "tuple", "clist") and not v[1])]
            # the list may have started unfiltered: later (filtered) values are derived from it
            return any(self.filtered_by_work(v, seen + (t,)) for v in vs)
        return False

    def bad(self, rid, con, where, why):
        self.viol.append((rid, con, where, why))

    # ---- events
    def on_event(self, ev, st, eng):
        att, ops, stored = st.rs or (None, frozenset(), frozenset())
        k = ev.kind
        if k == "bind":
            self.binds.setdefault(ev.name, set()).add(ev.value)
            x = ev.extra
            if x and x[0] in ("+", "-") and is_c(x[1]):
                ops = self.op(("local", ev.name), att, ops, ev)
        elif k == "iter" and isinstance(ev.node, (ast.For, ast.While)):
            if self.owns_units(ev.node):
                att = self.close(att, ev, st, "iteration")
                ops = frozenset()
                self.loops.append(ev.node)
        elif k == "iterend" and ev.name == "next" and isinstance(ev.node, (ast.For, ast.While)):
            if self.owns_units(ev.node):
                att = self.close(att, ev, st, "iteration")
                ops = frozenset()
        elif k == "call" and ev.name == "avail_worker_ids":
            att = self.close(att, ev, st, "query")
            ops = frozenset()
        elif k == "call" and ev.name in ("sim_work", "gen_work"):
            att = self.close(att, ev, st, "attempt")
            att = self.attempt(ev, st, ops)
        elif k == "callret" and ev.name in ("sim_work", "gen_work"):
            if att and att[3] == "try":
                pre = self.prerecord(att, ops, st)
                att = att[:3] + ("done" if pre else "given",) + att[4:]
        elif k == "caught":
            if att and att[3] == "try":
                self.caught_it = True
                pre = self.prerecord(att, ops, st)
                att = att[:3] + ("owed" if pre in ("cursor", "pop") else "failed",) + att[4:]
                if pre == "mark":
                    self.bad("no-trace", f"{att[0]} mask", att[4], "the points are marked as given although resources were insufficient for their unit")
                for o in ops:
                    if o[0] in ("inc", "key", "hist"):
                        self.bad("no-trace", f"{att[0]} {o[1]}", att[4], f"{o[1]} is updated for a unit that was not made (insufficient resources)")
        elif k == "store":
            loc, val = ev.loc, ev.value
            if val is not None and val[0] == "sym" and val[1] == "unit":
                stored = self.unit_stored(ev, st, att, stored)
            elif loc[0] == "i" and is_zeroc(val) and not is_strc(loc[2]) and mentions(loc[1], lambda x: x == H_ or x[0] == "phi"):
                ops = self.op(("mark", loc[1], nosite(loc[2])), att, ops, ev)
                if att and att[0] == "sim_work" and att[3] == "given" and nosite(unlist(loc[2], st)) == nosite(att[2]):
                    att = att[:3] + ("done",) + att[4:]
            elif root(loc) == PI or callname(root(loc)) == ".get" and mentions(loc, lambda x: x == PI):
                cur = ev.old if ev.old is not None and ev.old[0] not in ("phi", "deleted") else loc
                d = lin_diff(val, cur) if not is_c(val) or True else None
                inc = d is not None and not d[0] and d[1] != 0
                key = next((x[2] for x in reversed(list(subterms(loc))) if is_strc(x) and x[0] == "c"), None)
                key = loc[2][2] if loc[0] == "i" and is_strc(loc[2]) else key
                if att and att[0] == "sim_work" and self.is_cursor(att[2], cur, loc, st):
                    dv = lin_diff(val, att[2])
                    if att[3] in ("given", "done") and not dv[0] and dv[1] >= 1:
                        att = att[:3] + ("done",) + att[4:]
                    elif att[3] == "owed" and not dv[0] and dv[1] == 0:
                        att = att[:3] + ("restored",) + att[4:]
                    elif att[3] == "failed" and not dv[0] and dv[1] > 0:
                        self.bad("no-trace", "cursor", ev.where(), "the cursor advances past a point whose unit could not be made")
                elif inc and not self.skipping(cur, st):
                    ops = self.op(("inc", key or show(loc)), att, ops, ev)
                elif key is not None and key in self.read and not self.skipping(cur, st):
                    ops = self.op(("key", key), att, ops, ev)
            elif root(loc) == H_ and loc[0] == "i":
                ops = self.op(("hist", next((x[2] for x in subterms(loc) if is_strc(x)), "H")), att, ops, ev)
        elif k == "mutate":
            if ev.name == "pop" and mentions(ev.base, lambda x: x == PI or x == ("sym", "remaining")):
                ops = frozenset([("pop",)])      # the unit's points are chosen here
            elif ev.name in ("add", "update", "append") and mentions(ev.base or NONE, lambda x: x == PI or x == ("sym", "remaining")):
                if att and att[3] == "owed" and ev.args and nosite(unlist(ev.args[-1], st)) == nosite(att[2]):
                    att = att[:3] + ("restored",) + att[4:]
        elif k == "return":
            att = self.close(att, ev, st, "return")
        st.rs = (att, ops, stored)

    def owns_units(self, node):
        """A loop whose iterations make units (directly or through a local helper), as opposed to an inner loop of one."""
        if id(node) not in self._own:
            self._own[id(node)] = any(isinstance(n, ast.Call) and (method_name(n) in ("sim_work", "gen_work") or method_name(n) in self.helpers) for n in ast.walk(node))
        return self._own[id(node)]

    def skipping(self, cur, st):
        return any(v and a[0] == "t" and mentions(a, lambda x: x == C("cancel_requested")) for a, v in st.facts.items())

    def is_cursor(self, rows, cur, loc, st):
        d = lin_diff(rows, cur)
        return not d[0] or not lin_diff(rows, loc)[0]

    def op(self, o, att, ops, ev):
        if att and att[3] == "failed" and o[0] in ("inc", "key", "hist"):
            self.bad("no-trace", f"{att[0]} {o[1]}", ev.where(), f"{o[1]} is updated after the unit could not be made (insufficient resources)")
        if att and att[3] == "failed" and o[0] == "mark" and (o[2] == nosite(att[2]) or contains(nosite(att[2]), o[2])):
            self.bad("no-trace", f"{att[0]} mask", ev.where(), "the points are marked as given although resources were insufficient for their unit")
        return ops | {o}

    def prerecord(self, att, ops, st):
        """Was the unit's bookkeeping done before the unit was made?"""
        if att[0] != "sim_work":
            return None
        rows = att[2]
        if ("pop",) in ops and mentions(rows, lambda x: callname(x) == ".pop"):
            return "pop"
        if any(o[0] == "mark" and o[2] == nosite(rows) for o in ops):
            return "mark"
        for loc, v in st.heap.items():
            if loc[0] == "i" and is_strc(loc[2]) and root(loc) == PI and v[0] != "phi" and not is_c(v):
                d = lin_diff(v, rows)
                if not d[0] and d[1] == 1:
                    return "cursor"
        return None

    def attempt(self, ev, st, ops):
        self.units += 1
        f = self.ctx.p.meth(AS, ev.name)
        d = args_of(ev, f)
        rows, wid = d.get("H_rows", NONE), d.get("wid", NONE)
        w = ev.where()
        if self.source(wid) is None and wid[0] != "phi":
            self.bad("available", f"{ev.name} worker", w, f"work is made for {show(wid)}, which does not come from the availability query")
        r = unlist(rows, st)
        if ev.name == "sim_work":
            self.sim_rows(r, st, w)
        elif self.running_gen(wid):
            self.gen_rows(r, wid, st, w)
        return (ev.name, wid, r, "try", w)

    def rowleaf(self, row):
        def leaf(x):
            if x[0] == "i" and is_strc(x[2]) and root(x[1]) == H_ and x[2][2] in row:
                return row[x[2][2]]
            return NOVAL
        return leaf

    def free(self, y):
        return y[0] == "cmp" or y[0] == "i" and is_strc(y[2]) and root(y[1]) == H_

    def sim_rows(self, r, st, w):
        m = the_mask(r)
        if m is not None:
            seen = 0
            for s, c in ((True, False), (False, True), (True, True)):
                try:
                    r1 = rowsat(m, self.rowleaf({"sim_started": s, "cancel_requested": c}), self.free)
                except Unk:
                    continue
                seen += 1
                if r1:
                    self.bad("eligible", "simulation rows", w, f"points that are {'already started' if s else 'cancelled'} can be given (rows {show(r)})")
            if not seen:
                self.und.add("rows " + show(r)[:80])
            return
        cur = self.cursor_loc(r, st)
        if cur is not None:
            lt = mk_cmp("<", r, ("len", H_))
            inb = conj_fact(st, lt)
            if inb is None:
                inb = any(v is True and a[0] == "cmp" and a[1] == "<0" and (d := dict(a[2])).get(("len", H_)) == -1 and mentions(a, lambda x: x == C("next_to_give")) for a, v in st.facts.items())
            ca = ("t", mk_index(mk_index(H_, r), C("cancel_requested")))
            can = conj_fact(st, ca)
            if inb is not True:
                self.bad("eligible", "cursor bound", w, f"the row {show(r)} may lie beyond the history")
            if can is not False:
                self.bad("eligible", "cursor cancelled", w, f"the row {show(r)} may be cancelled")
            return
        if mentions(r, lambda x: callname(x) == ".pop"):
            return
        self.und.add("rows " + show(r)[:80])

    def cursor_loc(self, r, st):
        if mentions(r, lambda x: x[0] == "i" and x[2] == C("next_to_give") or x[0] == "phi" and "next_to_give" in str(x[2])):
            return True
        return None

    def gen_rows(self, r, wid, st, w):
        if any(v and mentions(a, lambda x: (callname(x) or "").endswith("all_sim_ended")) for a, v in st.facts.items()):
            return
        parts = [r]
        if r[0] == "phi":
            parts = []
            for v in self.binds.get(r[2], ()):
                if callname(v) in ("numpy.append", "numpy.concatenate", "numpy.hstack") and v[2]:
                    parts += list(v[2][1:]) if callname(v) == "numpy.append" else []
        n = 0
        for x in parts:
            m = the_mask(x)
            if m is None and x[0] == "i" and x[2] == C("sim_id") and x[1][0] == "i" and not is_strc(x[1][2]):
                m = x[1][2]
            if m is None and x[0] == "i" and not is_strc(x[2]):
                m = x[2]
            if m is None:
                continue
            try:
                r1 = rowsat(m, self.rowleaf({"sim_ended": False}), self.free)
            except Unk:
                continue
            n += 1
            if r1:
                self.bad("ended", "rows to a generator", w, f"points whose simulation has not ended can be given back (rows {show(x)})")
        if not n:
            self.und.add("gen rows " + show(r)[:80])

    def unit_stored(self, ev, st, att, stored):
        self.stores += 1
        loc = ev.loc
        key = loc[2] if loc[0] == "i" else None
        if key is None:
            return stored
        if att is not None and att[1] != key and nosite(att[1]) != nosite(key):
            self.bad("available", "unit key", ev.where(), f"a unit made for worker {show(att[1])} is filed under {show(key)}")
        src = self.source(key)
        if not src:
            return stored
        loop = next((n for n in reversed(self.loops) if n.lineno <= ev.node.lineno <= n.end_lineno), None)
        me = (src, id(loop) if loop is not None else None, key[1] if key[0] == "elem" else None)
        fact = st.facts.get(("cmp", "in", key, loc[1]))
        if fact is not False and not self.filtered_by_work(key):
            for s2, l2, it2 in stored:
                if l2 == me[1] and l2 is not None and (me[2] is None or it2 == me[2]):
                    continue      # another element of the same list
                if any(not self.disjoint(a, b) for a in src for b in s2):
                    self.bad("no-replacement", "unit", ev.where(), f"worker {show(key)} may already have a unit made earlier in this call")
        return stored | {me}

    def close(self, att, ev, st, why):
        """The window of an attempt ends."""
        if att is None:
            return None
        kind, wid, rows, state, w = att
        if state == "owed" and why in ("return", "iteration", "attempt", "query"):
            self.bad("no-trace", f"{kind} points", w, "the points of a unit that could not be made are neither kept for later nor put back")
        if state == "given" and kind == "sim_work":
            m = the_mask(rows)
            if m is not None and why in ("attempt",) and ev.name == "sim_work":
                self.bad("recorded", "mask", w, "points given are not marked before the next unit is made: they can be given twice")
            elif m is None and self.cursor_loc(rows, st) and why in ("attempt", "return", "iteration"):
                self.bad("recorded", "cursor", w, "the cursor does not move past the point given: it will be given again")
        if why == "iteration" and (kind != "sim_work" or the_mask(rows) is None):
            return None
        if why == "return" or state in ("failed", "owed", "restored", "done") and why in ("iteration", "attempt", "query"):
            return None
        return att


def alloc_pass(ctx, exc=IFR):
    p = ctx.p
    ctx.gen_tag = K(p, "EVAL_GEN_TAG")
    ctx.alloc_public = {"sim_work", "gen_work", "avail_worker_ids", "count_gens", "count_persis_gens", "test_any_gen", "all_sim_started", "all_sim_ended", "all_gen_informed",
                        "points_by_priority", "assign_resources"}
    from .manager2 import alloc_functions
    out = []
    for fi in alloc_functions(p):
        rule = AllocRun(ctx, fi, exc)
        res = ctx.engine(rule).run(fi, facts={("t", I(P("libE_info"), "sim_max_given")): False, ("t", I(P("libE_info"), "any_idle_workers")): True})
        out.append((fi, rule, res))
    return out


def report_alloc(ctx, outs, rules):
    for fi, rule, res in outs:
        bad = {}
        for rid, con, where, why in rule.viol:
            if rid in rules:
                bad.setdefault((rid, con, where), why)
        for rid in rules:
            if not any(k[0] == rid for k in bad):
                ctx.ob(rid, fi.qual.split(":")[-1] + " in " + fi.module.name.split(".")[-1], True, ctx.where(fi))
        for (rid, con, where), why in bad.items():
            ctx.ob(rid, f"{fi.module.name.split('.')[-1]}: {con}", False, where, why)
        for u in sorted(rule.und):
            ctx.assumption(f"{fi.module.name.split('.')[-1]}: {u} — origin not decided")


@check("A02", "path-sensitive abstract interpretation of every shipped allocation function: origin of worker ids, row masks evaluated per row state, cursor facts")
def a02(ctx):
    ctx.rule("available", "every unit is made for, and filed under, a worker obtained from the availability query")
    ctx.rule("no-replacement", "no unit can overwrite one made earlier in the same call")
    ctx.rule("eligible", "points given for simulation are never already started or cancelled: the mask they come from excludes both, or the cursor is inside the history at a non-cancelled point")
    ctx.rule("ended", "rows given back to a running generator are selected among ended ones, or all its points have ended")
    outs = alloc_pass(ctx)
    report_alloc(ctx, outs, ("available", "no-replacement", "eligible", "ended"))
    ctx.floor("allocation functions", len(outs), 10)
    ctx.floor("unit sites reached", sum(r.units for _, r, _ in outs), 20)
    ctx.floor("units filed", sum(r.stores for _, r, _ in outs), 20)


@check("A03", "typestate of each work unit over all paths of every shipped allocation function, with the resource failure injected at each builder call")
def a03(ctx):
    ctx.rule("contained", "insufficient free resources never leave an allocation function; a request that can never be met is not hidden")
    ctx.rule("no-trace", "a unit that could not be made leaves no bookkeeping behind")
    ctx.rule("recorded", "points of a unit that was made are recorded before they could be given again")
    outs = alloc_pass(ctx)
    for fi, rule, res in outs:
        esc = [st for st in res["raise"] if st.exc == IFR]
        ctx.ob("contained", fi.module.name.split(".")[-1], not esc, ctx.where(fi), "InsufficientFreeResources leaves the allocation function and fails the run")
    report_alloc(ctx, outs, ("no-trace", "recorded"))
    ctx.floor("allocation functions", len(outs), 10)
    ctx.floor("unit sites reached", sum(r.units for _, r, _ in outs), 20)
    IRE = LIB + "resources.scheduler:InsufficientResourcesError"
    for fi, rule, res in alloc_pass(ctx, IRE):
        ctx.ob("contained", fi.module.name.split(".")[-1] + " (impossible request)", not rule.caught_it, ctx.where(fi), "a request for more resources than exist is treated like a temporary shortage: the run would wait forever")
