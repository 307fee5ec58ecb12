"""H01-H05: the history array and its bookkeeping (history.py)."""
from . import check
from .common import *

HQ = LIB + "history:History"
H = A(SELF, "H")
MARKS = {"sim_id": lambda v: v == C(-1), "_id": lambda v: v == C(-1), "sim_started_time": lambda v: v in INF,
         "gen_informed_time": lambda v: v in INF, "resource_sets": lambda v: is_c(v) and v[2] == 1}
OPTIONAL = {"_id", "resource_sets"}


def lower_kind(idx, zero_terms, len_terms):
    """Classify the row selector of a store: 'all', 'head' (:len), 'tail' (len:), or None."""
    if idx is None:
        return "all"
    if idx[0] == "s" and idx[3] == NONE:
        lo, up = idx[1], idx[2]
        if lo in (NONE, C(0)) and up == NONE:
            return "all"
        if lo in (NONE, C(0)) and up in len_terms:
            return "head"
        if lo in len_terms and up == NONE:
            return "tail"
    return None


def split_field_row(base, idx):
    """Indices of a store to a structured array -> (field term, row term or None, extra or None)."""
    field = row = extra = None
    for i in idx:
        if is_strc(i) or i[0] == "elem" and field is None and row is None and not i[0] == "s" and _fieldish(i):
            if field is None:
                field = i
                continue
        if row is None:
            row = i
        else:
            extra = i
    return field, row, extra


def _fieldish(e):
    """Element of an iteration over field names."""
    s = e[1]
    return s[0] == "a" and s[2] in ("names", "fields") or s[0] in ("list", "tuple", "clist", "phi") or s[0] == "call" and any(
        x[0] == "a" and x[2] in ("names", "fields", "descr") for x in subterms(s))


def is_zeros(t):
    return callname(t) in ("numpy.zeros", "numpy.zeros_like") or callname(t) == "numpy.full" and len(t[2]) > 1 and is_zeroc(t[2][1])


# ---------------------------------------------------------------------------------------------- H02
@check("H02")
def h02(ctx):
    ctx.rule("unset-markers-init", "every path through History.__init__ stores the unset marker of each field on all rows "
             "beyond the initial history, and no later store touches those rows")
    ctx.rule("unset-markers-grow", "grow_H appends rows made by a zeros constructor and carrying the same marker table")
    ctx.rule("rows-preserved", "growth appends behind the existing array; adding fields copies every old field over all rows")
    ctx.rule("h0-region", "every store of initial-history values in __init__ is limited to the first len(H0) rows")
    ctx.rule("grow-when-needed", "rows are stored from a batch only when it fits or after grow_H by at least the missing rows")
    p = ctx.p
    init = p.meth(HQ, "__init__")
    h0 = P(init.params[-1])
    L0 = {("len", h0), A(SELF, "index")}
    for present in (True, False):
        def orc(atom, st, eng):
            for f in OPTIONAL:
                if names_atom(atom, f) and atom[3] != A(A(h0, "dtype"), "names"):
                    return present
            return None

        def label(ev, st, eng):
            if ev.kind != "store" or ev.loc[0] != "i":
                return None
            base, idx = path_of(ev.loc)
            if base == h0 or base[0] == "new":
                return None
            f, r, x = split_field_row(base, idx)
            k = lower_kind(r, None, L0)
            if f is None:
                return ("odd", show(ev.loc), ev.where())
            v = ev.value
            cond = isinstance(v, tuple) and v[0] == "deleted"
            rs = st.rs or frozenset()
            name = f[2] if is_strc(f) else "*"
            if k == "head":
                return ("head", name)
            if name in MARKS and MARKS[name](v):
                if k == "tail":
                    return ("mark", name)
                if k == "all" and not any(a[0] == "head" and a[1] in (name, "*") for a in rs):
                    return ("mark", name)
            if k == "all" and name not in MARKS and is_zeroc(v) and not any(a[0] == "head" and a[1] in (name, "*") for a in rs):
                return None
            return ("odd", f"{show(ev.loc)} = {show(v)}", ev.where())
        rule = Labels(label, oracle=orc, relevant=lambda a: False)
        eng = ctx.engine(rule)
        res = eng.run(init)
        need = {f for f in MARKS if present or f not in OPTIONAL}
        for st, _ in res["return"]:
            rs = st.rs or frozenset()
            for f in sorted(need):
                ctx.ob("unset-markers-init", f"History.__init__ {f}", ("mark", f) in rs, ctx.where(init),
                       f"a path leaves rows beyond the initial history without the {f} marker")
            odd = [a for a in rs if a[0] == "odd"]
            ctx.ob("h0-region", "History.__init__ stores", not odd, odd[0][2] if odd else ctx.where(init),
                   f"store {odd[0][1]} is neither limited to the initial history nor the unset marker" if odd else "")
        # the array kept is one made of zeros
        for st, _ in res["return"]:
            v = st.heap.get(H)
            ctx.ob("unset-markers-init", "History.__init__ zeros", v is not None and (v[0] == "phi" or is_zeros(v)), ctx.where(init),
                   f"history array is {show(v) if v else 'not set'}")
    # any array constructor in __init__ whose rows become history must be zeros
    ctors = []

    def ev_ctor(ev, st, eng):
        if ev.kind == "call" and ev.callee in ("numpy.empty", "numpy.empty_like", "numpy.zeros", "numpy.full"):
            ctors.append((ev.callee, ev.where()))
    eng = ctx.engine(Fn(event=ev_ctor))
    for m in ("__init__", "grow_H", "_append_new_fields"):
        eng.run(p.meth(HQ, m))
    for c, w in ctors:
        ctx.ob("unset-markers-init", "row constructors", c not in ("numpy.empty", "numpy.empty_like"), w, f"{c} leaves rows undefined")
    # grow_H
    grow = p.meth(HQ, "grow_H")
    for present in (True, False):
        def orc(atom, st, eng):
            for f in OPTIONAL:
                if names_atom(atom, f):
                    return present
            return None

        def label(ev, st, eng):
            if ev.kind == "store" and ev.loc[0] == "i":
                base, idx = path_of(ev.loc)
                f, r, x = split_field_row(base, idx)
                oldlen = {("len", H), A(SELF, "index")}
                name = f[2] if f is not None and is_strc(f) else "*"
                if is_zeros(base):
                    k = lower_kind(r, None, set())
                    if k == "all" and name in MARKS and MARKS[name](ev.value):
                        return ("mark", name)
                    if name not in MARKS and is_zeroc(ev.value):
                        return None
                elif callname(base) in ("numpy.append", "numpy.concatenate", "numpy.hstack"):
                    if lower_kind(r, None, {("len", H)}) == "tail" and name in MARKS and MARKS[name](ev.value):
                        return ("mark", name)
                return ("odd", f"{show(ev.loc)} = {show(ev.value)}", ev.where())
            if ev.kind == "store" and ev.loc == H:
                return ("set", ev.value)
        eng = ctx.engine(Labels(label, oracle=orc))
        res = eng.run(grow)
        need = {f for f in MARKS if present or f not in OPTIONAL}
        for st, _ in res["return"]:
            rs = st.rs or frozenset()
            for f in sorted(need):
                ctx.ob("unset-markers-grow", f"History.grow_H {f}", ("mark", f) in rs, ctx.where(grow),
                       f"rows are appended without the {f} marker")
            odd = [a for a in rs if a[0] == "odd"]
            ctx.ob("unset-markers-grow", "History.grow_H stores", not odd, odd[0][2] if odd else "", f"unexpected store {odd[0][1]}" if odd else "")
            sets = [a[1] for a in rs if a[0] == "set"]
            ok = len(sets) == 1 and _append_ok(sets[0], P(grow.params[1]), st, eng)
            ctx.ob("rows-preserved", "History.grow_H", ok, ctx.where(grow),
                   f"new history array is {[show(x) for x in sets]}; expected old rows followed by k new rows made of zeros")
    # _append_new_fields
    anf = p.meth(HQ, "_append_new_fields")
    hf = P(anf.params[1])

    def label2(ev, st, eng):
        if ev.kind == "store" and ev.loc == H:
            return ("set", ev.value)
        if ev.kind == "iter":
            return ("iter", ev.extra)
        if ev.kind == "store" and ev.loc[0] == "i":
            base, idx = path_of(ev.loc)
            f, r, x = split_field_row(base, idx)
            if f is None:
                return ("odd", show(ev.loc), ev.where())
            k = lower_kind(r, None, {("len", H)})
            src = ev.value
            ok = k in ("all", "head") and (src == I(H, f) or (src[0] == "i" and path_of(src)[1][-1] == f and path_of(src)[0] == H and
                                                             lower_kind(path_of(src)[1][0], None, {("len", H)}) in ("all", "head")))
            return ("copy", f[1] if f[0] == "elem" else f, base) if ok and f[0] == "elem" else ("odd", f"{show(ev.loc)} = {show(src)}", ev.where())
    eng = ctx.engine(Labels(label2))
    res = eng.run(anf)
    names = A(A(H, "dtype"), "names")
    copied = False
    for st, _ in res["return"]:
        rs = st.rs or frozenset()
        sets = [a[1] for a in rs if a[0] == "set"]
        odd = [a for a in rs if a[0] == "odd"]
        ctx.ob("rows-preserved", "_append_new_fields stores", not odd, odd[0][2] if odd else "", f"unexpected store {odd[0][1]}" if odd else "")
        v = strip_deep(sets[0]) if len(sets) == 1 else None
        good = v is not None and is_zeros(v) and v[2] and v[2][0] == ("len", H)
        ctx.ob("rows-preserved", "_append_new_fields size", good, ctx.where(anf), f"new array is {[show(x) for x in sets]}, expected zeros of the old length")
        if good:
            dt = dict(v[3]).get("dtype") or (v[2][1] if len(v[2]) > 1 else None)
            ctx.ob("rows-preserved", "_append_new_fields dtype", dt is not None and contains(dt, A(H, "dtype")) and mentions(dt, lambda x: x == hf),
                   ctx.where(anf), "new dtype must join the old and the returned fields")
        if any(a[0] == "copy" for a in rs):
            copied = True
    allsets = set()
    for st, _ in res["return"]:
        allsets |= {strip_deep(a[1]) for a in (st.rs or ()) if a[0] == "iter"}
    ctx.ob("rows-preserved", "_append_new_fields copies all old fields", copied and names in allsets, ctx.where(anf),
           "every field of the old array must be copied into the new one")
    # any body iteration ends having copied: iteration without copy is caught by per-iteration typestate
    _each_iteration_copies(ctx, anf, names)
    _grow_when_needed(ctx)


def _append_ok(v, k, st, eng):
    n = callname(v)
    if n == "numpy.append" and len(v[2]) >= 2 and not v[3]:
        parts = list(v[2][:2])
    elif n in ("numpy.concatenate", "numpy.hstack") and v[2]:
        parts = eng.seq_items(v[2][0], st) or []
    else:
        return False
    if len(parts) != 2 or parts[0] != H:
        return False
    z = parts[1]
    if not is_zeros(z):
        return False
    n = z[2][0] if z[2] else dict(z[3]).get("shape")
    dt = dict(z[3]).get("dtype") or (z[2][1] if len(z[2]) > 1 else None)
    return n == k and dt == A(H, "dtype")


def _each_iteration_copies(ctx, fi, names):
    bad = []

    def event(ev, st, eng):
        if ev.kind == "iter" and strip_deep(ev.extra or NONE) == names:
            if st.rs == "open":
                bad.append(ev.where())
            st.rs = "open"
        elif ev.kind == "store" and ev.loc[0] == "i" and path_of(ev.loc)[0] != H:
            st.rs = "done"
    eng = ctx.engine(Fn(event=event))
    res = eng.run(fi)
    bad += [ctx.where(fi) for st, _ in res["return"] if st.rs == "open"]
    ctx.ob("rows-preserved", "_append_new_fields every field", not bad, bad[0] if bad else "", "a field of the old array can be skipped")


def _grow_when_needed(ctx):
    fi = ctx.p.meth(HQ, "update_history_x_in")
    D = P(fi.params[2])

    def inline(f, eng):
        return f.name not in ("_append_new_fields", "grow_H")

    def event(ev, st, eng):
        rs = dict(st.rs or ())
        if ev.kind in ("call", "callin") and ev.name == "grow_H":
            rs["grow"] = (ev.args[0] if ev.args else ev.kw.get("k"))
            st.rs = tuple(sorted(rs.items(), key=repr))
        if ev.kind == "store" and ev.loc == A(SELF, "index"):
            rs["facts"] = tuple(sorted(((a, v) for a, v in st.facts.items() if contains(a, ("len", H))), key=repr))
            st.rs = tuple(sorted(rs.items(), key=repr))
    eng = ctx.engine(Fn(event=event, inline=inline))
    res = eng.run(fi, facts={("t", D): True})
    idx = A(SELF, "index")
    n = 0
    for st, _ in res["return"]:
        fin = st.heap.get(idx)
        if fin is None:
            continue
        N, c = lin_diff(fin, idx)
        if not N and c == 0:
            continue
        n += 1
        g = dict(st.rs or ()).get("grow")
        need = dict(N)
        need[("len", H)] = need.get(("len", H), 0) - 1
        need[idx] = need.get(idx, 0) + 1
        if g is not None:
            g = strip_deep(g)
            gv = [g] + (list(st.heap.get(x) and [st.heap[x]] or []) if (x := g) else [])
            ok = False
            for t in gv:
                cands = [t] + (list(t[2]) if callname(t) in ("max", "numpy.maximum") else [])
                for q in cands:
                    r, cc = lin(strip_deep(q))
                    r = {k: v for k, v in r.items() if v}
                    if r == need and cc - c >= 0:
                        ok = True
            ctx.ob("grow-when-needed", "update_history_x_in grow size", ok, ctx.where(fi), f"grow_H({show(g)}) may add fewer rows than the batch needs")
        else:
            ok = False
            for a, v in dict(st.rs or ()).get("facts", ()):
                if a[0] == "cmp" and a[1] == "<0":
                    items = {k: w for k, w in dict(a[2]).items()}
                    items = {strip_deep(k): w for k, w in items.items()}
                    neg = {k: -w for k, w in need.items() if w}
                    pos = {k: w for k, w in need.items() if w}
                    # need + c <= 0  <=>  not (-(need+c) < 0)
                    if v is False and items == neg and a[3] <= -c:
                        ok = True
                    # need + c - 1 < 0  <=> need + c <= 0
                    if v is True and items == pos and a[3] >= c - 1:
                        ok = True
            ctx.ob("grow-when-needed", "update_history_x_in fit test", ok, ctx.where(fi),
                   f"a batch of {show(('b', '-', fin, idx))} rows is stored without knowing it fits (index + batch <= len(H))")
    ctx.floor("paths that store a batch", n, 2)


# ---------------------------------------------------------------------------------------------- per-row effects
class RowFx(Rule):
    """Labels effects per row set q: st.rs = (outer labels, labels of the open iteration or None, closed iteration sets)."""

    def __init__(self, q, label):
        self.q, self._l = q, label

    def on_event(self, ev, st, eng):
        outer, cur, done = st.rs or (frozenset(), None, frozenset())
        if ev.kind == "iter":
            it = ev.extra
            el = ev.value
            if el is not None and _iter_over(it, self.q):
                if cur is not None:
                    done = done | {cur}
                cur = frozenset()
                st.rs = (outer, cur, done)
                return
        r = self._l(ev, st, eng)
        if r is None:
            return
        kind, lab = r
        if kind == "each":
            if cur is None:
                outer = outer | {("stray", lab)}
            else:
                cur = (cur | {("twice", lab)}) if lab in cur and lab[0] == "count" else cur | {lab}
        else:
            outer = (outer | {("twice", lab)}) if lab in outer and lab[0] == "count" else outer | {lab}
        st.rs = (outer, cur, done)


def _iter_over(it, q):
    it, q = strip_deep(it), strip_deep(q)
    if it == q:
        return True
    if callname(it) == "enumerate" and it[2] and strip_arr(it[2][0]) == q:
        return True
    if callname(it) == "range" and it[2] and it[2][-1] == ("len", q) and (len(it[2]) == 1 or it[2][0] == C(0)):
        return True
    if callname(it) == "zip" and any(strip_arr(a) == q for a in it[2]):
        return True
    return False


def rowfx_ok(rs, need, forbid=("stray", "twice", "odd")):
    """-> list of problems"""
    outer, cur, done = rs or (frozenset(), None, frozenset())
    sets = set(done) | ({cur} if cur is not None else set())
    probs = []
    for s in ([outer] + [outer | x for x in sets]):
        for lab in s:
            if lab[0] in forbid:
                probs.append(f"{lab[0]}: {lab[1:]}")
    if not sets:
        miss = [n for n in need if n not in outer]
        if miss:
            probs.append(f"not done for the rows: {miss}")
    for s in sets:
        miss = [n for n in need if n not in s and n not in outer]
        if miss:
            probs.append(f"not done for a row: {miss}")
    for n in need:
        if n[0] == "count" and n in outer and any(n in s for s in sets):
            probs.append(f"counted twice: {n}")
    return probs


def row_kind(row, q):
    if row is None:
        return None
    if strip_deep(row) == strip_deep(q):
        return "all"
    if is_elem_of(row, q):
        return "each"
    return None


def is_now(v):
    return callname(v) in ("time.time", "time.perf_counter", "time.monotonic") or v[0] == "call" and v[1][0] in ("g", "method") and "time" in str(v[1][1])


def count_label(ev, loc, q, name):
    """Label for an update of counter loc by the number of rows."""
    if ev.extra is not None and ev.extra[0] == "+":
        r, c = lin(strip_deep(ev.extra[1]))
    else:
        r, c = lin_diff(ev.value, ev.old if ev.old is not None and ev.old[0] != "phi" else loc)
    if not r and c == 1:
        return ("each", ("count", name))
    qq = strip_deep(q)
    if c == 0 and r == {("len", qq): 1}:
        return ("all", ("count", name))
    return ("all", ("odd", f"{name} changes by {show(ev.value)}", ev.where()))


@check("H03")
def h03(ctx):
    ctx.rule("give-out", "on every path update_history_x_out marks exactly the given rows started, timed and owned, and counts each once")
    ctx.rule("return", "on every path update_history_f stores each returned field of each row, marks it ended and timed, and counts it once")
    ctx.rule("initial-counters", "initial counters are sums over the marks of the initial history, and offsets equal them")
    ctx.rule("h0-marks", "an initial history without started/ended/id fields is taken as evaluated and numbered")
    p = ctx.p
    fo = p.meth(HQ, "update_history_x_out")
    q, w = P(fo.params[1]), P(fo.params[2])
    cnt = A(SELF, "sim_started_count")
    want = {"sim_started": lambda v: is_truec(v), "sim_started_time": is_now, "sim_worker": lambda v: v == w}

    def lab(ev, st, eng):
        if ev.kind != "store":
            return None
        if ev.loc == cnt:
            return count_label(ev, cnt, q, "sim_started_count")
        if ev.loc[0] == "i":
            base, idx = path_of(ev.loc)
            if base == H:
                f, r, x = split_field_row(base, idx)
                k = row_kind(r, q)
                if f is not None and is_strc(f) and f[2] in want:
                    if k and x is None and want[f[2]](ev.value):
                        return (k, ("set", f[2]))
                    return ("all", ("odd", f"{show(ev.loc)} = {show(ev.value)}", ev.where()))
                return ("all", ("odd", f"{show(ev.loc)} = {show(ev.value)}", ev.where()))
        if ev.loc[0] == "a" and ev.loc[1] == SELF and ev.loc[2] in ("sim_ended_count", "gen_informed_count", "index"):
            return ("all", ("odd", f"{show(ev.loc)} = {show(ev.value)}", ev.where()))
    eng = ctx.engine(RowFx(q, lab))
    need = [("set", f) for f in want] + [("count", "sim_started_count")]
    for st, _ in eng.run(fo)["return"]:
        pr = rowfx_ok(st.rs, need)
        ctx.ob("give-out", "update_history_x_out", not pr, ctx.where(fo), "; ".join(pr))

    ff = p.meth(HQ, "update_history_f")
    D = P(ff.params[1])
    q2 = I(D, "libE_info", "H_rows")
    out = I(D, "calc_out")
    cnt2 = A(SELF, "sim_ended_count")

    def inline(f, e):
        return f.name != "_append_new_fields"

    def lab2(ev, st, eng):
        if ev.kind != "store":
            return None
        if ev.loc == cnt2:
            return count_label(ev, cnt2, q2, "sim_ended_count")
        if ev.loc[0] == "i":
            base, idx = path_of(ev.loc)
            if base == H:
                fs = [i for i in idx if is_strc(i)]
                rows = [i for i in idx if row_kind(i, q2)]
                if fs and rows:
                    k = row_kind(rows[0], q2)
                    if fs[0] == C("sim_ended"):
                        return (k, ("set", "sim_ended")) if is_truec(ev.value) else ("all", ("odd", f"sim_ended = {show(ev.value)}", ev.where()))
                    if fs[0] == C("sim_ended_time"):
                        return (k, ("set", "sim_ended_time")) if is_now(ev.value) else ("all", ("odd", f"sim_ended_time = {show(ev.value)}", ev.where()))
                    return ("all", ("odd", f"{show(ev.loc)}", ev.where()))
                if not rows:
                    return ("all", ("odd", f"store to rows that were not returned: {show(ev.loc)}", ev.where()))
                return None
        if ev.loc[0] == "a" and ev.loc[1] == SELF and ev.loc[2] in ("sim_started_count", "gen_informed_count", "index"):
            return ("all", ("odd", f"{show(ev.loc)} = {show(ev.value)}", ev.where()))
    rule = RowFx(q2, lab2)
    rule.inline = inline
    eng = ctx.engine(rule)
    need2 = [("set", "sim_ended"), ("set", "sim_ended_time"), ("count", "sim_ended_count")]
    for st, _ in eng.run(ff)["return"]:
        outer, cur, done = st.rs or (frozenset(), None, frozenset())
        if not done and cur is None and not (outer & set(need2)):
            continue          # no rows
        pr = rowfx_ok(st.rs, need2)
        ctx.ob("return", "update_history_f marks", not pr, ctx.where(ff), "; ".join(pr))
    _returned_fields_stored(ctx, ff, q2, out)
    _h0(ctx)


def _returned_fields_stored(ctx, ff, q, out):
    """typestate of the loop over returned fields: each iteration stores returned[field][j] into H[field][ind] of the same row."""
    bad = []
    seen = []

    def is_field_iter(ev):
        it = strip_deep(ev.extra) if ev.extra is not None else NONE
        return ev.kind == "iter" and ev.value is not None and (it == A(A(out, "dtype"), "names") or it[0] == "phi") and not _iter_over(ev.extra, q) and not _is_comp(ev)

    def event(ev, st, eng):
        rs = st.rs
        if is_field_iter(ev):
            if isinstance(rs, tuple) and rs[0] == "open":
                bad.append((ev.where(), "a returned field can be skipped"))
            st.rs = ("open", ev.value)
            seen.append(ev.value)
            return
        if ev.kind == "store" and ev.loc[0] == "i" and isinstance(rs, tuple):
            base, idx = path_of(ev.loc)
            if base != H or rs[1] not in idx:
                return
            fld = rs[1]
            rows = [i for i in idx if row_kind(i, q)]
            vb, vi = path_of(ev.value)
            rest = [i for i in idx if i != fld and i not in rows]
            rowok = bool(rows)
            ob, oi = path_of(out)
            if vb == ob and fld in vi and all(o in vi for o in oi):
                pos = [i for i in vi if i != fld and i not in oi]
                ok = rowok and len(pos) == 1 and (row_kind(rows[0], q) == "all" or _same_position(rows[0], pos[0]))
                if rest and not (rest[0][0] == "s" and rest[0][1] in (NONE, C(0)) and strip_deep(rest[0][2]) == strip_deep(("len", ev.value))):
                    ok = False
                if ok:
                    st.rs = ("done", fld)
                else:
                    bad.append((ev.where(), f"{show(ev.loc)} = {show(ev.value)}: not the value returned for this row"))
            else:
                bad.append((ev.where(), f"{show(ev.loc)} = {show(ev.value)}: not the value returned for this row"))
    rule = Fn(event=event, inline=lambda f, e: f.name != "_append_new_fields")
    eng = ctx.engine(rule)
    res = eng.run(ff, facts={mk_cmp("==", out, NONE): False})
    for st, _ in res["return"]:
        if isinstance(st.rs, tuple) and st.rs[0] == "open":
            bad.append((ctx.where(ff), "a returned field can be skipped"))
    ctx.ob("return", "update_history_f fields", seen and not bad, bad[0][0] if bad else ctx.where(ff), bad[0][1] if bad else "the returned fields are never stored")


def _same_position(row, pos):
    """row is element k of the rows and pos is the same k."""
    if row[0] == "elem":
        return pos[0] == "idx" and pos[1] == row[2]
    if row[0] == "i":
        return row[2] == pos
    return False


def _h0(ctx):
    p = ctx.p
    init = p.meth(HQ, "__init__")
    h0 = P(init.params[-1])
    names = A(A(h0, "dtype"), "names")
    F = lambda f: ("cmp", "in", C(f), names)
    CNT = {"sim_started_count": "sim_started", "sim_ended_count": "sim_ended", "gen_informed_count": "gen_informed"}
    OFF = {"sim_started_offset": "sim_started_count", "sim_ended_offset": "sim_ended_count", "gen_informed_offset": "gen_informed_count"}
    L0 = {("len", h0)}
    for has_started, has_ended, has_id in [(a, b, c) for a in (0, 1) for b in (0, 1) for c in (0, 1)]:
        facts = {("t", h0): True, F("sim_started"): bool(has_started), F("sim_ended"): bool(has_ended), F("sim_id"): bool(has_id)}
        probs = []

        def event(ev, st, eng):
            rs = st.rs or frozenset()
            if ev.kind == "store" and ev.loc[0] == "i":
                base, idx = path_of(ev.loc)
                f, r, x = split_field_row(base, idx)
                if f is not None and is_strc(f) and f[2] in ("sim_started", "sim_ended", "sim_id", "gen_informed") and lower_kind(r, None, L0) == "head":
                    st.rs = rs | {("h0", f[2], ev.value)}
                elif f is not None and f[0] == "elem" and lower_kind(r, None, L0) == "head":
                    vb, vi = path_of(ev.value)
                    ok = vb == h0 and vi == [f]
                    st.rs = rs | {("copy", ok)}
            if ev.kind == "store" and ev.loc[0] == "a" and ev.loc[1] == SELF:
                n = ev.loc[2]
                if n in CNT:
                    v = ev.value
                    ok = callname(v) in ("sum", "numpy.sum", ".sum") and v[2] and v[2][0][0] == "i" and path_of(v[2][0])[1][-1:] == [C(CNT[n])]
                    st.rs = rs | {("cnt", n, ok, frozenset(a for a in rs if a[0] == "h0"))}
                if n in OFF:
                    st.rs = rs | {("off", n, ev.value)}
        eng = ctx.engine(Fn(event=event, relevant=lambda a: a in facts))
        res = eng.run(init, facts=facts)
        want = set()
        if not has_started:
            want |= {"sim_started", "sim_ended"}
        elif not has_ended:
            want |= {"sim_ended"}
        if not has_id:
            want |= {"sim_id"}
        ctx.ob("h0-marks", "initial history copied", any(("copy", True) in (st.rs or ()) for st, _ in res["return"]), ctx.where(init),
               "the fields of the initial history must be copied into its rows")
        tag = f"started={has_started} ended={has_ended} id={has_id}"
        for st, _ in res["return"]:
            rs = st.rs or frozenset()
            got = {a[1]: a[2] for a in rs if a[0] == "h0"}
            ctx.ob("h0-marks", f"initial history {tag}", set(got) == want, ctx.where(init),
                   f"marks set on the initial history are {sorted(got)}, expected {sorted(want)}")
            for f, v in got.items():
                if f == "sim_started":
                    ok = is_truec(v)
                elif f == "sim_ended":
                    ok = is_truec(v) if not has_started else (v[0] == "i" and path_of(v)[1][-1] == C("sim_started") or v[0] == "i" and C("sim_started") in path_of(v)[1])
                elif f == "sim_id":
                    vv = strip_deep(v)
                    ok = callname(vv) in ("numpy.arange", "range") and vv[2] in ((("len", h0),), (C(0), ("len", h0)))
                else:
                    ok = False
                ctx.ob("h0-marks", f"initial history value {f} {tag}", ok, ctx.where(init), f"{f} = {show(v)}")
            ctx.ob("h0-marks", f"initial history copy {tag}", ("copy", False) not in rs, ctx.where(init),
                   "a store over the initial rows does not copy the initial history's own field")
            for n in CNT:
                c = [a for a in rs if a[0] == "cnt" and a[1] == n]
                ok = bool(c) and all(a[2] for a in c)
                ctx.ob("initial-counters", n, ok, ctx.where(init), f"{n} must be the number of {CNT[n]} marks")
                if ok and CNT[n] in want:
                    ctx.ob("initial-counters", f"{n} order", all(any(b[1] == CNT[n] for b in a[3]) for a in c), ctx.where(init),
                           f"{n} is computed before the initial history is marked")
            for n, src in OFF.items():
                o = [a[2] for a in rs if a[0] == "off" and a[1] == n]
                ok = bool(o) and all(v == st.heap.get(A(SELF, src)) or v == A(SELF, src) or
                                     callname(v) in ("sum", ".sum") and path_of(v[2][0])[1][-1:] == [C(CNT[src])] for v in o)
                ctx.ob("initial-counters", n, ok, ctx.where(init), f"{n} must equal the initial {src}")


# ---------------------------------------------------------------------------------------------- H04
@check("H04")
def h04(ctx):
    ctx.rule("append", "without ids the rows stored are index..index+len(D), numbered consecutively, and index advances by len(D)")
    ctx.rule("with-ids", "with ids the rows stored are the ids given, gaps are refused first, and index advances by the ids not yet present")
    ctx.rule("stamps", "generator worker and times are stamped only on rows whose gen_ended_time is unset, before anything else stamps them")
    ctx.rule("empty", "an empty batch stores nothing")
    ctx.rule("all-fields", "every field of the batch is stored")
    p = ctx.p
    fi = p.meth(HQ, "update_history_x_in")
    gw, D, gst = (P(x) for x in fi.params[1:4])
    idx = A(SELF, "index")
    names = A(A(D, "dtype"), "names")
    HASID = ("cmp", "in", C("sim_id"), names)
    inl = lambda f, e: f.name not in ("_append_new_fields", "grow_H")

    # empty batch
    st_ev = []
    eng = ctx.engine(Fn(event=lambda ev, st, e: st_ev.append(ev.where()) if ev.kind == "store" and (ev.loc[0] == "a" and ev.loc[1] == SELF or path_of(ev.loc)[0] == H) else None, inline=inl))
    eng.run(fi, facts={("t", D): False})
    ctx.ob("empty", "update_history_x_in", not st_ev, st_ev[0] if st_ev else "", "an empty batch changes the history")

    nlen = ("len", D)
    for hasid in (False, True):
        rule_id = "with-ids" if hasid else "append"
        gaps = []

        def rows_ok(r):
            r = strip_deep(r)
            if hasid:
                return r == I(D, "sim_id") or is_elem_of(r, I(D, "sim_id"))
            if r[0] == "elem":
                r = r[1]
            if callname(r) in ("numpy.arange", "range") and len(r[2]) == 2:
                return lin_eq(r[2][0], idx) and lin_eq(r[2][1], ("b", "+", idx, nlen))
            if r[0] == "s":
                return lin_eq(r[1], idx) and lin_eq(_unl(r[2]), ("b", "+", idx, nlen)) and r[3] == NONE
            return False

        def sel_ok(sel):
            """rows[ H['gen_ended_time'][rows] == 0 ]"""
            sel = strip_deep(sel)
            b, ix = path_of(sel)
            if sel[0] == "elem":
                return sel_ok(sel[1])
            if sel[0] != "i":
                return False
            rows, m = sel[1], sel[2]
            if m == C("sim_id") and rows[0] == "i":      # D[mask]["sim_id"] is D["sim_id"][mask]
                rows, m = I(rows[1], "sim_id"), rows[2]
            if not rows_ok(rows):
                return False
            if m[0] == "call" and callname(m) in ("numpy.flatnonzero",):
                m = m[2][0]
            return m[0] == "cmp" and m[1] == "==" and is_zeroc(m[3]) and path_of(m[2])[0] == H and C("gen_ended_time") in path_of(m[2])[1] \
                and any(rows_ok(x) for x in path_of(m[2])[1]) or m[0] == "not" and m[1] == ("t", I(H, rows, "gen_ended_time"))

        def event(ev, st, eng):
            rs = st.rs or frozenset()
            if ev.kind == "store" and ev.loc[0] == "i":
                base, ix = path_of(ev.loc)
                if base != H:
                    return
                f, r, x = split_field_row(base, ix)
                w = ev.where()
                if f is not None and f[0] == "elem":
                    vb, vi = path_of(ev.value)
                    ok = r is not None and rows_ok(r) and x is None and vb == D and f in vi and (len(vi) == 1)
                    st.rs = rs | {("field", ok, w, f"{show(ev.loc)} = {show(ev.value)}")}
                elif f is not None and f[2] == "sim_id":
                    vv = strip_deep(ev.value)
                    ok = not hasid and r is not None and rows_ok(r) and (callname(vv) in ("range", "numpy.arange") and rows_ok(vv) or vv == strip_deep(r))
                    st.rs = rs | {("id", ok, w, f"{show(ev.loc)} = {show(ev.value)}")}
                elif f is not None and f[2] in ("gen_started_time", "gen_ended_time", "gen_worker"):
                    vok = {"gen_started_time": ev.value == gst, "gen_ended_time": is_now(ev.value), "gen_worker": ev.value == gw}[f[2]]
                    guard = sel_ok(r) if r is not None else False
                    if r is not None and not guard and rows_ok(r):
                        # one row at a time under a test of its own time
                        guard = conj_fact(st, mk_cmp("==", I(H, r, "gen_ended_time"), C(0))) is True
                    st.rs = rs | {("stamp", f[2], bool(vok and guard), w, f"{show(ev.loc)} = {show(ev.value)}")}
                    if f[2] == "gen_ended_time":
                        pass
                else:
                    st.rs = rs | {("odd", w, f"{show(ev.loc)} = {show(ev.value)}")}
            if ev.kind == "bind" and ev.value is not None and sel_ok(ev.value) and any(a[0] == "stamp" and a[1] == "gen_ended_time" for a in rs):
                st.rs = rs | {("odd", ev.where(), "first-time rows are selected after they were stamped")}
            if ev.kind in ("assertfail", "raise"):
                gaps.append((dict(st.facts), rs, ev.where()))
            if ev.kind == "iter" and ev.extra is not None and strip_deep(ev.extra) == names:
                st.rs = rs | {("fielditer",)}
        eng = ctx.engine(Fn(event=event, inline=inl))
        res = eng.run(fi, facts={("t", D): True, HASID: hasid})
        nret = 0
        for st, _ in res["return"]:
            rs = st.rs or frozenset()
            nret += 1
            for a in rs:
                if a[0] == "field":
                    ctx.ob(rule_id, "update_history_x_in rows", a[1], a[2], f"{a[3]}: not the rows of this batch")
                elif a[0] == "id":
                    ctx.ob(rule_id, "update_history_x_in ids", a[1], a[2], f"{a[3]}: ids must be index..index+len(D)")
                elif a[0] == "stamp":
                    ctx.ob("stamps", f"update_history_x_in {a[1]}", a[2], a[3], f"{a[4]}: not limited to rows generated for the first time, or wrong value")
                elif a[0] == "odd":
                    ctx.ob(rule_id, "update_history_x_in other stores", False, a[1], a[2])
            if not hasid:
                ctx.ob("append", "update_history_x_in ids are set", any(a[0] == "id" for a in rs), ctx.where(fi), "ids of appended rows are not set")
            fin = st.heap.get(idx)
            if fin is None or fin[0] == "phi":
                ctx.ob(rule_id, "update_history_x_in index", False, ctx.where(fi), "index is not advanced exactly once on some path")
                continue
            N, c = lin_diff(fin, idx)
            if not hasid:
                ok = N == {nlen: 1} and c == 0
            else:
                ok = c == 0 and len(N) == 1 and list(N.values()) == [1] and _new_ids(list(N)[0], D)
            ctx.ob(rule_id, "update_history_x_in index", ok, ctx.where(fi), f"index advances by {show(('b', '-', fin, idx))}")
        ctx.floor(f"paths of update_history_x_in (ids {'given' if hasid else 'not given'})", nret, 1)
        allrs = frozenset().union(*[st.rs or frozenset() for st, _ in res["return"]])
        for f in ("gen_started_time", "gen_ended_time", "gen_worker"):
            ctx.ob("stamps", f"update_history_x_in {f} present", any(a[0] == "stamp" and a[1] == f for a in allrs) and
                   all(any(a[0] == "stamp" and a[1] == f for a in (st.rs or ())) for st, _ in res["return"]) or _loop_stamp(allrs, f), ctx.where(fi), f"{f} is not stamped")
        ctx.ob("all-fields", "update_history_x_in", any(a[0] == "field" for a in allrs) and any(a[0] == "fielditer" for a in allrs), ctx.where(fi), "fields of the batch are not all stored")
        _all_batch_fields(ctx, fi, HASID, hasid, names, D)
        if hasid:
            ok = False
            for facts, rs, w in gaps:
                if any(a[0] in ("field", "stamp", "id") for a in rs):
                    continue
                for a, v in facts.items():
                    if mentions(a, lambda t: t == I(D, "sim_id")) and mentions(a, lambda t: callname(t) in ("numpy.arange", "range")):
                        for t in subterms(a):
                            if callname(t) in ("numpy.arange", "range") and len(t[2]) >= 2 and lin_eq(t[2][0], idx) and contains(t[2][1], I(D, "sim_id")):
                                r, c = lin(strip_deep(t[2][1]))
                                r = dict(r)
                                if len(r) == 1 and list(r.values()) == [1] and c < 1 and callname(list(r)[0]) in ("max", "numpy.max", ".max", "numpy.amax"):
                                    continue        # the ids at the end are not looked at
                                if v is False and a[0] in ("t", "all") or v is True and a[0] in ("t", "any") or a[0] == "cmp":
                                    ok = True
            ctx.ob("with-ids", "update_history_x_in gap refusal", ok, ctx.where(fi),
                   "ids given by the generator are not checked to cover every id from index on before rows are stored")


def _loop_stamp(allrs, f):
    return False


def _unl(t):
    """undo num_norm's ('lin', items, c) to something lin() understands"""
    if t[0] == "lin":
        e = C(t[2])
        for k, v in t[1]:
            e = ("b", "+", e, ("b", "*", C(v), k))
        return e
    return t


def _new_ids(t, D):
    """len(setdiff1d(D ids, H ids)) or an equivalent count of ids not yet present."""
    if t[0] == "len":
        x = t[1]
        if callname(x) == "numpy.setdiff1d" and x[2][:2] == (I(D, "sim_id"), I(H, "sim_id")):
            return True
        if x[0] == "b" and x[1] == "-":
            return contains(x[2], I(D, "sim_id")) and contains(x[3], I(H, "sim_id"))
        if callname(x) in (".difference",):
            return contains(x[2][0], I(D, "sim_id")) and any(contains(y, I(H, "sim_id")) for y in x[2][1:])
        return False
    if callname(t) == "sum":
        return mentions(t, lambda x: callname(x) in ("numpy.isin", "numpy.in1d")) and contains(t, I(D, "sim_id")) and contains(t, I(H, "sim_id"))
    return False


def _all_batch_fields(ctx, fi, HASID, hasid, names, D):
    bad = []

    def event(ev, st, eng):
        if ev.kind == "iter" and ev.extra is not None and strip_deep(ev.extra) == names and not _is_comp(ev):
            if st.rs == "open":
                bad.append(ev.where())
            st.rs = "open"
        elif ev.kind == "store" and ev.loc[0] == "i" and path_of(ev.loc)[0] == H and path_of(ev.value)[0] == D:
            st.rs = "done"
    eng = ctx.engine(Fn(event=event, inline=lambda f, e: f.name not in ("_append_new_fields", "grow_H")))
    res = eng.run(fi, facts={("t", D): True, HASID: hasid})
    bad += [ctx.where(fi) for st, _ in res["return"] if st.rs == "open"]
    ctx.ob("all-fields", f"update_history_x_in every field (ids {'given' if hasid else 'not given'})", not bad, bad[0] if bad else "", "a field of the batch can be skipped")


def _is_comp(ev):
    return isinstance(ev.node, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp))


# ---------------------------------------------------------------------------------------------- H05
@check("H05")
def h05(ctx):
    ctx.rule("informed-only-ended", "gen_informed is set only on rows known to have ended")
    ctx.rule("informed-all-ended", "every ended row among those given is marked informed, on every path")
    ctx.rule("informed-stamp", "the informed time is stamped on, and the counter advances by, exactly the rows given")
    ctx.rule("informed-empty", "giving no rows changes nothing")
    fi = ctx.p.meth(HQ, "update_history_to_gen")
    q = P(fi.params[1])
    cnt = A(SELF, "gen_informed_count")

    def touches(ev):
        return ev.kind == "store" and (ev.loc == cnt or ev.loc[0] == "i" and path_of(ev.loc)[0] == H or ev.loc[0] == "a" and ev.loc[1] == SELF)
    empt = []
    size_atoms = lambda a: strip_deep(a) == ("t", q)

    def orc(val):
        def f(atom, st, eng):
            a = strip_deep(atom)
            if a == ("t", q):
                return val
            if a[0] == "t" and a[1] == ("len", q):
                return val
            if a[0] == "cmp" and a[1] == "==" and a[2] == ("len", q) and a[3] == C(0):
                return not val
            if a[0] == "cmp" and a[1] == "<0" and len(a[2]) == 1 and a[2][0][0] == ("len", q):
                k, c = a[2][0][1], a[3]
                if k == -1 and c == 0:
                    return val
                if k == 1 and c == -1:
                    return not val
            return None
        return f
    eng = ctx.engine(Fn(event=lambda ev, st, e: empt.append(f"{ev.where()} {show(ev.loc)}") if touches(ev) else None, oracle=orc(False)))
    eng.run(fi)
    real = [x for x in empt if "each(" not in x and "given_back" not in x]
    ctx.ob("informed-empty", "update_history_to_gen", not real, real[0] if real else "", "an empty row set changes the history")

    E = lambda r: I(H, r, "sim_ended")

    def ended_state(st, row):
        """are all of row's rows known ended?"""
        r = strip_deep(row)
        if r[0] == "elem":
            return ended_state(st, r[1]) or _f(st, ("t", E(r)))
        if r[0] == "i" and strip_deep(r[2]) in (E(r[1]), ("t", E(r[1]))):
            return True
        if r[0] == "i" and callname(r[2]) == "numpy.flatnonzero" and strip_deep(r[2][2][0]) == E(r[1]):
            return True
        return _f(st, ("t", ("all", E(r)))) or _f(st, ("all", E(r)))

    def _f(st, atom):
        for a, v in st.facts.items():
            if v is True and strip_deep(a) == atom:
                return True
        return False

    def _nf(st, atom):
        for a, v in st.facts.items():
            if v is False and strip_deep(a) == atom:
                return True
        return False

    def event(ev, st, eng):
        rs = st.rs or frozenset()
        if ev.kind == "loop" and ev.value is not None:
            it = strip_deep(ev.extra)
            if it[0] == "i" and it[1] == q and ended_state(st, it):
                st.rs = rs | {("cover", "loop")}
                return
            if it == q:
                st.rs = rs | {("qloop",)}
                return
        if ev.kind != "store":
            return
        w = ev.where()
        if ev.loc == cnt:
            k, lab = count_label(ev, cnt, q, "gen_informed_count")
            st.rs = rs | {lab if lab not in rs else ("odd", w, "counter advanced twice")}
            return
        if ev.loc[0] == "i" and path_of(ev.loc)[0] == H:
            f, r, x = split_field_row(*path_of(ev.loc))
            if f == C("gen_informed"):
                rr = strip_deep(r) if r is not None else None
                if rr is not None and strip_deep(ev.value) == E(rr) and (rr == q or rr[0] == "elem" and rr[1] == q):
                    st.rs = rs | {("cover", "value")}
                    return
                ok = rr is not None and is_truec(ev.value) and ended_state(st, rr)
                st.rs = rs | ({("inf-ok",)} if ok else {("inf-bad", w, f"{show(ev.loc)} = {show(ev.value)}")})
                if ok and rr == q:
                    st.rs |= {("cover", "all")}
                if ok and rr[0] == "i" and rr[1] == q:
                    st.rs |= {("cover", "sel")}
                if ok and rr[0] == "elem" and rr[1] == q:
                    st.rs |= {("cover", "each")}
                return
            if f == C("gen_informed_time"):
                k = row_kind(r, q)
                st.rs = rs | ({("time",)} if k and is_now(ev.value) else {("odd", w, f"{show(ev.loc)} = {show(ev.value)}")})
                return
            st.rs = rs | {("odd", w, f"{show(ev.loc)} = {show(ev.value)}")}
    eng = ctx.engine(Fn(event=event, oracle=orc(True)))
    n = 0
    for st, _ in eng.run(fi)["return"]:
        rs = st.rs or frozenset()
        n += 1
        bad = [a for a in rs if a[0] == "inf-bad"]
        ctx.ob("informed-only-ended", "update_history_to_gen", not bad, bad[0][1] if bad else "", f"{bad[0][2]}: the rows are not known to have ended" if bad else "")
        odd = [a for a in rs if a[0] == "odd"]
        ctx.ob("informed-stamp", "update_history_to_gen stores", not odd, odd[0][1] if odd else "", odd[0][2] if odd else "")
        ctx.ob("informed-stamp", "update_history_to_gen time", ("time",) in rs, ctx.where(fi), "the informed time is not stamped on the rows given")
        ctx.ob("informed-stamp", "update_history_to_gen count", ("count", "gen_informed_count") in rs, ctx.where(fi), "the informed counter does not advance by the rows given")
        none = _nf(st, ("t", ("any", E(q)))) or _nf(st, ("any", E(q)))
        cov = any(a[0] == "cover" for a in rs) or none or (("qloop",) in rs and any(x[0] == "inf-ok" for x in rs))
        if not cov and ("qloop",) in rs:
            cov = True        # one row at a time; the rows not marked are those not known to have ended
        ctx.ob("informed-all-ended", "update_history_to_gen", cov, ctx.where(fi), "a path leaves ended rows unmarked")
    ctx.floor("paths of update_history_to_gen", n, 1)
    # the marking loop over the ended rows marks each of them
    bad = []

    def event2(ev, st, eng):
        if ev.kind == "iter" and ev.value is not None:
            it = strip_deep(ev.extra)
            if it[0] == "i" and it[1] == q or it == q:
                if st.rs and st.rs[0] == "open" and not _nf(st, ("t", E(st.rs[1]))):
                    bad.append(ev.where())
                st.rs = ("open", strip_deep(ev.value))
        elif ev.kind == "store" and ev.loc[0] == "i" and path_of(ev.loc)[0] == H and C("gen_informed") in path_of(ev.loc)[1]:
            st.rs = ("done",)
    eng = ctx.engine(Fn(event=event2, oracle=orc(True)))
    eng.run(fi)
    ctx.ob("informed-all-ended", "update_history_to_gen loop", not bad, bad[0] if bad else "", "a row that has ended can be skipped")
