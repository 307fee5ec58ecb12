"""G02: conversions between dictionaries, mapped arrays and unmapped arrays keep every value in its field."""
import ast

from . import check
from .common import *  # noqa
from .comms import Sim

MISC = LIB + "utils.misc:"
ARR = P("array")

# (mapping, {field: number of components, 0 for a scalar})  -- the array side
SHAPES = [
    ({}, {"f": 0, "v": 3}),
    ({"x": ["x0", "x1"]}, {"x": 2, "f": 0, "v": 3}),
    ({"x": ["a", "b", "c"], "f": ["energy"]}, {"x": 3, "f": 0, "sim_id": 0, "v": 3}),
    ({"x": ["a"]}, {"x": 0, "v": 2}),
    ({"f": ["f"]}, {"x": 2, "f": 0}),
    ({"x": ["a", "b"], "x_on_cube": ["c", "d"], "sim_id": ["_id"]}, {"x": 2, "x_on_cube": 2, "sim_id": 0, "f": 0}),
]


def tup(xs):
    return ("tuple", tuple(C(x) for x in xs))


def mapping_term(m):
    return ("cdict", tuple((C(k), ("clist", tuple(C(x) for x in v))) for k, v in m.items()))


def unmapped(m, fields):
    """The fields of the other side: one scalar per component."""
    out = {}
    for f, k in fields.items():
        if f in m:
            out.update({s: 0 for s in m[f]})
        else:
            out[f] = k
    return out


class Arrays:
    """What is known of an array with given fields, and of each of its rows."""

    def __init__(self, fields):
        self.fields = fields

    def field(self, t):
        """(is a row, field) of a column or of a row's entry."""
        if t[0] == "i" and t[2][0] == "c" and isinstance(t[2][2], str) and t[2][2] in self.fields:
            if t[1] == ARR:
                return False, t[2][2]
            if t[1][0] == "elem" and t[1][1] == ARR:
                return True, t[2][2]
        return None

    def shape(self, t):
        f = self.field(t)
        if f is not None:
            k = self.fields[f[1]]
            return (() if f[0] else (P("<n>"),)) + ((C(k),) if k else ())
        if t[0] == "i" and t[1] == ("a", ARR, "dtype") and t[2][2] in self.fields:
            k = self.fields[t[2][2]]
            return (C(k),) if k else ()
        return None

    def value(self, t):
        if t[0] == "a":
            if t[2] == "names" and t[1][0] == "a" and t[1][2] == "dtype" and (t[1][1] == ARR or t[1][1][0] == "elem" and t[1][1][1] == ARR):
                return tup(self.fields)
            if t[2] == "shape":
                s = self.shape(t[1])
                return None if s is None else ("tuple", s)
            if t[2] == "ndim":
                s = self.shape(t[1])
                return None if s is None else C(len(s))
        return None

    def decide(self, atom, st):
        if atom[0] == "cmp" and NONE in atom:
            x = atom[3] if atom[2] == NONE else atom[2]
            return False if x == ARR or self.field(x) else None
        if atom[0] == "cmp" and atom[1] == "==" and atom[2][0] in ("tuple", "list") and atom[3][0] in ("tuple", "list"):
            return atom[2][1] == atom[3][1]
        t = atom[1] if atom[0] == "t" else atom
        if callname(t) in ("hasattr", "isinstance") and t[2]:
            f = self.field(t[2][0])
            if f is not None:
                if callname(t) == "hasattr":
                    return not f[0] or self.fields[f[1]] > 0 if t[2][1] == C("__len__") else None
                return False if ("g", "str") in t[2] else None
        if t[0] in ("tuple", "cdict"):
            return bool(t[1])
        f = self.field(t)
        if f is not None and f[0] and self.fields[f[1]]:
            return True
        if atom[0] == "cmp" and atom[1] in ("<0", "==0"):
            tot = atom[3]
            for x, k in atom[2]:
                f = self.field(x[1]) if x[0] == "len" else None
                if f is None or not f[0]:
                    return None
                tot += k * self.fields[f[1]]
            return tot < 0 if atom[1] == "<0" else tot == 0
        if atom[0] == "cmp" and atom[1] == "==" and atom[2][0] == "len" and is_c(atom[3]):
            f = self.field(atom[2][1])
            if f is not None and f[0]:
                return self.fields[f[1]] == atom[3][2]
        return None


def fields_of(dt, st):
    """[(name, type, size)] of a dtype term, or None."""
    items = dt[1] if dt[0] in ("tuple", "list", "clist") else None
    if dt[0] == "new":
        c = st.heap.get(("content", dt))
        items = c[1] if c is not None and c[0] == "tuple" else None
    if items is None:
        return None
    out = []
    for x in items:
        if x[0] not in ("tuple", "list") or len(x[1]) < 2 or not is_c(x[1][0]):
            return None
        out.append((x[1][0][2], x[1][1], x[1][2] if len(x[1]) > 2 else None))
    return out


def built(v):
    """The dtype of a freshly made array, or None."""
    if v[0] == "call" and callname(v) in ("numpy.zeros", "numpy.empty", "numpy.full"):
        return dict(v[3]).get("dtype", v[2][1] if len(v[2]) > 1 else None)
    return None


def col(f):
    return ("i", ARR, C(f))


def component(v):
    """(column, component number) of array[f][:, i] and its spellings; (column, None) of a whole column."""
    if v[0] == "i" and v[1][0] == "i" and v[1][1] == ARR:
        s = v[2]
        if s[0] in ("tuple", "list") and len(s[1]) == 2 and is_c(s[1][1]) and isinstance(s[1][1][2], int) and (s[1][0][0] == "slice" or show(s[1][0]) in (":", "...", "Ellipsis")):
            return v[1][2][2], s[1][1][2]
    if v[0] == "i" and v[1] == ARR and is_c(v[2]):
        return v[2][2], None
    return None


def check_types(ctx, rule, con, got, want, where):
    """want: field -> (the array field its type comes from, components or 0); got: fields_of()."""
    names = [g[0] for g in got]
    for n in want:
        ctx.ob(rule, f"{con}: field {n}", n in names, where, f"the field {n} is missing from the result")
    for n in names:
        ctx.ob(rule, f"{con}: field {n}", n in want and names.count(n) == 1, where, f"the result has {'two fields' if n in want else 'an unexpected field'} {n}")
    for n, t, size in got:
        if n not in want:
            continue
        src, k, keep = want[n]
        whole = ("i", ("a", ARR, "dtype"), C(src))
        if k == 0:
            ctx.ob(rule, f"{con}: shape of {n}", size is None or size in (("tuple", ()), C(0), C(1)), where, f"the scalar field {n} is given several components")
        elif t == whole and keep:
            ctx.ob(rule, f"{con}: shape of {n}", size is None, where, f"the components of {n} are multiplied")
        elif size is None:
            ctx.ob(rule, f"{con}: shape of {n}", not (keep and t in (("a", whole, "type"), ("a", whole, "base"), ("a", col(src), "dtype"), ("a", ("a", col(src), "dtype"), "type"))) and (keep or t != whole), where,
                   f"the field {n} loses its {k} components")
        elif size in (("tuple", (C(k),)), C(k)) or not is_c(size) and not (size[0] == "tuple" and all(is_c(z) for z in size[1])):
            ctx.ob(rule, f"{con}: shape of {n}", True, where, "")
        else:
            ctx.ob(rule, f"{con}: shape of {n}", False, where, f"the field {n} has {show(size)} instead of {k} components")


def run(ctx, name, A, args, extra=None, label=None):
    fi = ctx.p.funcs.get(MISC + name)
    if fi is None:
        raise AnalysisBroken(f"G02: {name} is gone")

    def decide(atom, st):
        r = extra(atom, st) if extra else None
        return r if r is not None else A.decide(atom, st) if A else None
    return fi, ctx.engine(Sim(decide=decide, value=A.value if A else None, label=label, havoc=False, inline=lambda g: g.qual.startswith(MISC))).run(fi, args=args)


def cells(st, v):
    """field -> value stored in a result array (whole columns)."""
    return {k[2][2]: x for k, x in st.heap.items() if k[0] == "i" and k[1] == v and is_c(k[2]) and isinstance(k[2][2], str) and x[0] != "deleted"}


def to_parts(ctx):
    """unmap_numpy_array"""
    ctx.rule("unmapped", "taking a mapped array apart gives every component of a mapped field its own variable, in order, and leaves all other fields as they are")
    n = 0
    for m, fields in SHAPES:
        A = Arrays(fields)
        con = f"unmap {m} of {fields}"
        fi, res = run(ctx, "unmap_numpy_array", A, {"mapping": mapping_term(m)})
        n += 1
        w = ctx.where(fi)
        ctx.ob("unmapped", con, bool(res["return"]), w, "fails")
        for st, v in res["return"]:
            if not m:
                ctx.ob("unmapped", con, v == ARR or built(v) is not None, w, f"gives {show(v)[:60]} without a mapping")
            if v == ARR:
                ctx.ob("unmapped", con, not m, w, "gives the mapped array back")
                continue
            dt = built(v)
            got = fields_of(dt, st) if dt is not None else None
            if got is None:
                ctx.assumption(f"{con}: {show(v)[:60]} has the right fields")
                continue
            want = {}
            for f, k in fields.items():
                for s in m.get(f, ()):
                    want[s] = (f, 0, False)
                if f not in m:
                    want[f] = (f, k, True)
            check_types(ctx, "unmapped", con, got, want, w)
            c = cells(st, v)
            for f, k in fields.items():
                for i, s in enumerate(m.get(f, ()) if f in m else (f,)):
                    x = c.get(s)
                    if x is None:
                        ctx.ob("unmapped", f"{con}: {s}", False, w, f"{s} is never filled")
                        continue
                    p_ = component(x)
                    if p_ is None and x[0] in ("call", "b", "i", "comp"):
                        if mentions(x, lambda t: t == col(f)):
                            ctx.assumption(f"{con}: {show(x)[:80]} is component {i} of {f}")
                            continue
                    ctx.ob("unmapped", f"{con}: {s}", p_ == (f, i if f in m and k else None), w, f"{s} is filled with {show(x)[:60]}")
    return n


def to_whole(ctx):
    """map_numpy_array"""
    ctx.rule("mapped", "putting variables together fills every mapped field with its variables, in order, and leaves all other fields as they are")
    n = 0
    for m, fields in SHAPES:
        src = unmapped(m, fields)
        A = Arrays(src)
        con = f"map {m} from {list(src)}"
        parts_stored = []

        def label(ev, st):
            loc = ev.loc
            if ev.kind == "store" and loc is not None and ev.value is not None and loc[0] == "i" and loc[1][0] == "i" and loc[2][0] in ("tuple", "list") and len(loc[2][1]) == 2 and is_c(loc[2][1][1]):
                parts_stored.append((loc[1], loc[2][1][1][2], ev.value))
            return None
        fi, res = run(ctx, "map_numpy_array", A, {"mapping": mapping_term(m)}, label=label)
        n += 1
        w = ctx.where(fi)
        ctx.ob("mapped", con, bool(res["return"]), w, "fails")
        for st, v in res["return"]:
            if v == ARR:
                ctx.ob("mapped", con, not m, w, "gives the unmapped array back")
                continue
            dt = built(v)
            got = fields_of(dt, st) if dt is not None else None
            if got is None:
                ctx.assumption(f"{con}: {show(v)[:60]} has the right fields")
                continue
            want = {f: ((m[f][0], len(m[f]) if len(m[f]) > 1 else 0, False) if f in m else (f, k, True)) for f, k in fields.items()}
            check_types(ctx, "mapped", con, got, want, w)
            c = cells(st, v)
            for f in fields:
                parts = m.get(f, [f])
                x = c.get(f)
                sub = {i: y for loc, i, y in parts_stored if loc == ("i", v, C(f))}
                if x is None and sub:
                    ctx.ob("mapped", f"{con}: {f}", [component(sub.get(i)) if i in sub else None for i in range(len(parts))] == [(s, None) for s in parts], w, f"the components of {f} are filled wrongly")
                    continue
                if x is None:
                    ctx.ob("mapped", f"{con}: {f}", False, w, f"{f} is never filled")
                    continue
                if len(parts) == 1:
                    used = columns(x)
                    ctx.ob("mapped", f"{con}: {f}", component(x) == (parts[0], None) or used == parts and component(x) is None, w, f"{f} is filled with {show(x)[:60]}")
                    continue
                used = columns(x)
                ctx.ob("mapped", f"{con}: {f}", used == parts, w, f"{f} is filled with {show(x)[:80]}, not with {parts} in order")
                if callname(x) == "numpy.stack" and used == parts:
                    ax = dict(x[3]).get("axis", x[2][1] if len(x[2]) > 1 else C(0))
                    ctx.ob("mapped", f"{con}: {f} by row", ax in (C(1), C(-1)), w, f"the variables of {f} are stacked along the rows")
    return n


def columns(x):
    """The array columns a term is made of, in order of appearance."""
    out = []

    def walk(t):
        if t[0] == "i" and t[1] == ARR and is_c(t[2]):
            out.append(t[2][2])
            return
        for y in t:
            if isinstance(y, tuple):
                walk(y) if y and isinstance(y[0], str) else [walk(z) for z in y if isinstance(z, tuple) and z]
    walk(x)
    return out


def to_dicts(ctx):
    """np_to_list_dicts"""
    ctx.rule("dictionaries", "each row becomes a dictionary that gives every component of a mapped field under its variable's name, in order, and every other field under its own")
    n = 0
    for m, fields in SHAPES:
        A = Arrays(fields)
        con = f"dictionaries with {m} of {fields}"
        seen = []

        def label(ev, st, seen=seen):
            if ev.kind == "mutate" and ev.name == "append" and ev.args and ev.args[0][0] == "new" and ev.args[0][2] == "dict":
                d = ev.args[0]
                seen.append(({k[2][2]: v for k, v in st.heap.items() if k[0] == "i" and k[1] == d and is_c(k[2]) and v[0] != "deleted"}, ev.where()))
            return None
        fi = ctx.p.funcs.get(MISC + "np_to_list_dicts")
        if fi is None:
            raise AnalysisBroken("G02: np_to_list_dicts is gone")
        ctx.engine(Sim(decide=A.decide, value=A.value, label=label, havoc=False, inline=lambda g: g.qual.startswith(MISC))).run(fi, args={"mapping": mapping_term(m)})
        n += 1
        if not seen:
            ctx.assumption(f"{con}: the dictionaries are built in a form this analysis does not follow")
            continue
        for d, w in seen:
            for f, k in fields.items():
                for i, s in enumerate(m.get(f, (f,))):
                    x = d.get(s)
                    if x is None:
                        ctx.ob("dictionaries", f"{con}: {s}", False, w, f"{s} is missing from the dictionaries")
                        continue
                    whole = A.field(x)
                    part, at = None, None
                    if x[0] == "i" and x[1][0] == "i" and is_c(x[2]) and is_c(x[1][2]):     # row[f][i] or row[i][f]
                        name, at = (x[1][2], x[2][2]) if isinstance(x[2][2], int) else (x[2], x[1][2][2])
                        part = A.field(("i", x[1][1], name))
                    good = whole == (True, f) and (f not in m or k <= 1) or part == (True, f) and f in m and k > 0 and at == i
                    if not good and whole is None and part is None and mentions(x, lambda t: A.field(t) == (True, f)):
                        ctx.assumption(f"{con}: {show(x)[:60]} is component {i} of {f}")
                        continue
                    ctx.ob("dictionaries", f"{con}: {s}", good, w, f"{s} is {show(x)[:60]}")
            extra = set(d) - set(unmapped(m, fields))
            ctx.ob("dictionaries", f"{con}: names", not extra, w, f"unexpected names {sorted(extra)}")
    return n


def from_dicts(ctx):
    """list_dicts_to_np"""
    ctx.rule("arrays", "a list of dictionaries becomes an array that holds every value of every dictionary in its field, mapped fields in the order of their variables, whether or not the fields were declared")
    ctx.rule("field-types", "the type of a field that was not declared is decided by all dictionaries, not by the first alone")
    n = 0
    for m, fields in SHAPES:
        src = unmapped(m, fields)
        for declared in ("none", "mapped", "variables"):
            if not m and declared == "mapped":
                continue
            rows = ("list", tuple(("cdict", tuple((C(k), P(f"{k}@{j}")) for k in src)) for j in range(2)))
            names = None if declared == "none" else list(fields) if declared == "mapped" else list(src)
            dt = NONE if names is None else ("list", tuple(("tuple", (C(f), ("g", "float")) + (((C(fields.get(f, 0)),)) if fields.get(f, 0) else ())) for f in names))
            con = f"array with {m} from {list(src)}, {'no fields' if declared == 'none' else 'the ' + declared + ' fields'} declared"
            stores = []
            made = []

            def label(ev, st):
                if ev.kind == "store" and ev.loc is not None and ev.loc[0] == "i" and ev.value is not None:
                    stores.append((ev.loc, ev.value, ev.where()))
                return None

            def known(atom, st):
                t = atom[1] if atom[0] == "t" else atom
                if t[0] in ("list", "tuple", "cdict", "clist"):
                    return bool(t[1])
                if callname(t) == "isinstance" and t[2] and t[2][0] == rows:
                    return True
                if callname(t) == "isinstance" and t[2]:
                    return ("g", "str") not in t[2][1:]     # the values are numbers
                if atom[0] == "cmp" and NONE in atom and rows in atom:
                    return False
                return None
            fi = ctx.p.funcs.get(MISC + "list_dicts_to_np")
            if fi is None:
                raise AnalysisBroken("G02: list_dicts_to_np is gone")
            res = ctx.engine(Sim(decide=known, label=label, havoc=False, inline=lambda g: g.qual.startswith(MISC))).run(
                fi, args={"mapping": mapping_term(m), "list_dicts": rows, "dtype": dt})
            n += 1
            w = ctx.where(fi)
            ctx.ob("arrays", con, bool(res["return"]), w, "fails")
            for st, v in res["return"]:
                d = built(v)
                got = fields_of(d, st) if d is not None else None
                if got is None:
                    ctx.assumption(f"{con}: {show(v)[:60]} has the right fields")
                else:
                    gn = [g[0] for g in got]
                    # every value of the dictionaries has a field that holds it
                    for f in fields:
                        for s in m.get(f, (f,)):
                            ctx.ob("arrays", f"{con}: {s}", f in gn or s in gn, w, f"no field holds {s}")
                    for f, t, size in got:
                        if declared == "none" and f in m:
                            k = len(m[f])
                            ok = size in (None, ("tuple", (C(1),)), C(1)) if k == 1 else size in (("tuple", (C(k),)), C(k))
                            ctx.ob("arrays", f"{con}: shape of {f}", ok, w, f"{f} does not have {k} components")
                        if declared == "none" and f not in m and f != "sim_id":
                            js = {x[1].split("@")[1] for x in subterms(t) if x[0] == "p" and x[1].startswith(f + "@")}
                            if js:
                                ctx.ob("field-types", f"{con}: type of {f}", len(js) > 1, w, f"the type of {f} is that of one dictionary: values of the others are cut to fit it")
                    want = [f for f in gn if f in fields or f in src]
                    for f in want:
                        for j in range(2):
                            mine = [(x, ww) for loc, x, ww in stores if loc in (("i", ("i", v, C(f)), C(j)), ("i", ("i", v, C(j)), C(f)))]
                            parts = m.get(f, (f,)) if f in m else (f,)
                            good = [("tuple", tuple(P(f"{s}@{j}") for s in parts)), ("list", tuple(P(f"{s}@{j}") for s in parts))] + ([P(f"{parts[0]}@{j}")] if len(parts) == 1 else [])
                            whole = [x for loc, x, _ in stores if loc == ("i", v, C(f))]
                            if not mine and whole:
                                ctx.assumption(f"{con}: {show(whole[0])[:60]} is the column {f}")
                                continue
                            if not mine:
                                ctx.ob("arrays", f"{con}: {f} of dictionary {j}", False, w, f"{f} is left at zero: the value of {list(parts)} is lost")
                                break
                            x, ww = mine[-1]
                            if x[0] in ("comp", "phi", "unk") or x[0] == "call" and all(mentions(x, lambda t, s=s: t == P(f"{s}@{j}")) for s in parts):
                                ctx.assumption(f"{con}: {show(x)[:60]} is the value of {f}")
                                continue
                            ctx.ob("arrays", f"{con}: {f} of dictionary {j}", x in good, ww, f"{f} is filled with {show(x)[:80]}")
    return n


@check("G02", "symbolic evaluation of the conversions over every shape of mapping (none, one, several, identical, scalar and vector fields, declared or not): correspondence of each result field with the values it must hold")
def g02(ctx):
    n = to_parts(ctx) + to_whole(ctx) + to_dicts(ctx) + from_dicts(ctx)
    ctx.floor("conversion shapes", n, 30)
