"""Normalised value terms (hashable tuples), their canonical conditions and printing."""

NONE = ("c", "NoneType", None)


def C(v):
    return ("c", type(v).__name__, v)


TRUE, FALSE = C(True), C(False)


def is_c(t):
    return isinstance(t, tuple) and len(t) == 3 and t[0] == "c"


def cval(t):
    return t[2]


def A(base, *attrs):
    for a in attrs:
        base = ("a", base, a)
    return base


def I(base, *idx):
    for i in idx:
        i = i if isinstance(i, tuple) else C(i)
        base = mk_index(base, i)
    return base


def P(n):
    return ("p", n)


SELF = P("self")


def is_strc(t):
    return is_c(t) and isinstance(t[2], str)


def mk_index(base, idx):
    """Subscript; for structured arrays the row comes before the field: X["f"][i] == X[i]["f"]."""
    if base[0] == "i" and is_strc(base[2]) and not is_strc(idx) and not (is_c(idx) and idx[1] == "NoneType"):
        if idx[0] not in ("tuple",):
            return ("i", mk_index(base[1], idx), base[2])
    if idx[0] == "s" and idx == ("s", NONE, NONE, NONE):
        return base
    if idx[0] == "s" and base[0] in ("clist", "tuple", "list") and all(is_c(x) and x[1] in ("int", "NoneType") for x in idx[1:]) and idx[3] != C(0):
        return (base[0], base[1][slice(*(x[2] for x in idx[1:]))])
    if base[0] == "a" and base[2] == "__dict__" and is_strc(idx):
        return ("a", base[1], idx[2])
    return ("i", base, idx)


def subterms(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
            if t[0] == "c":
                return
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)


def mentions(t, pred):
    return any(pred(x) for x in subterms(t))


def bigger(t, n):
    """More than n nodes?"""
    todo = [t]
    while todo:
        x = todo.pop()
        n -= 1
        if n < 0:
            return True
        if not is_c(x):
            todo += [y for y in x if isinstance(y, tuple)]
    return False


def contains(t, sub):
    if t == sub:
        return True
    if isinstance(t, tuple) and not (len(t) == 3 and t[0] == "c"):
        return any(isinstance(x, tuple) and contains(x, sub) for x in t)
    return False


def subst(t, m):
    if t in m:
        return m[t]
    if isinstance(t, tuple) and not is_c(t):
        return tuple(subst(x, m) if isinstance(x, tuple) else x for x in t)
    return t


def last_key(loc):
    """Final constant key / attribute of a location, or None when dynamic."""
    if loc[0] == "a":
        return loc[2]
    if loc[0] == "i" and is_c(loc[2]):
        return loc[2][2]
    return None


def root(t):
    while t[0] in ("a", "i"):
        t = t[1]
    return t


# ------------------------------------------------------------------ linear arithmetic
def lin(t):
    """term -> ({atom: coef}, const) for + - and multiplication by constants."""
    if is_c(t) and isinstance(t[2], (int, float)):
        return {}, t[2]
    if t[0] == "b" and t[1] in ("+", "-"):
        a, ca = lin(t[2])
        b, cb = lin(t[3])
        s = 1 if t[1] == "+" else -1
        r = dict(a)
        for k, v in b.items():
            r[k] = r.get(k, 0) + s * v
            if r[k] == 0:
                del r[k]
        return r, ca + s * cb
    if t[0] == "b" and t[1] == "*":
        for x, y in ((t[2], t[3]), (t[3], t[2])):
            if is_c(x) and isinstance(x[2], (int, float)):
                a, ca = lin(y)
                if x[2] == 0:
                    return {}, 0
                return {k: v * x[2] for k, v in a.items()}, ca * x[2]
    if t[0] == "u" and t[1] == "-":
        a, ca = lin(t[2])
        return {k: -v for k, v in a.items()}, -ca
    return {t: 1}, 0


def from_lin(r, c):
    items = tuple(sorted(r.items(), key=repr))
    return ("lin", items, c)


def num_norm(t):
    """Canonical numeric term."""
    r, c = lin(t)
    if not r:
        return C(c)
    if c == 0 and len(r) == 1:
        (k, v), = r.items()
        if v == 1:
            return k
    return from_lin(r, c)


def mk_cmp(op, a, b):
    """Canonical comparison as a condition term built from ('cmp','<',..), ('cmp','==',..), ('cmp','in',..) and not."""
    if op == "!=":
        return mk_not(mk_cmp("==", a, b))
    if op == "is not":
        return mk_not(mk_cmp("is", a, b))
    if op == "not in":
        return mk_not(mk_cmp("in", a, b))
    if op == "is":
        op = "=="
    if op == ">":
        return mk_cmp("<", b, a)
    if op == ">=":
        return mk_not(mk_cmp("<", a, b))
    if op == "<=":
        return mk_not(mk_cmp("<", b, a))
    if op == "<":
        if is_c(a) and is_c(b):
            try:
                return C(bool(a[2] < b[2]))
            except TypeError:
                pass
        ra, ca = lin(a)
        rb, cb = lin(b)
        r = dict(ra)
        for k, v in rb.items():
            r[k] = r.get(k, 0) - v
            if r[k] == 0:
                del r[k]
        c = ca - cb
        if not r:
            return C(c < 0)
        if len(r) == 1:
            (k, v), = r.items()
            if k[0] == "len":
                # v*len + c < 0
                if v == -1 and c == 0:      # 0 < len
                    return ("t", k[1])
                if v == 1 and c == -1:      # len < 1
                    return mk_not(("t", k[1]))
        # x < 0 with fixed sign order: keep as is (canonical: sorted atoms)
        return ("cmp", "<0", tuple(sorted(r.items(), key=repr)), c)
    if op == "==":
        if is_c(a) and not is_c(b):
            a, b = b, a
        if is_c(a) and is_c(b):
            if a[1] == b[1] or {a[1], b[1]} <= {"int", "float", "bool"}:
                return C(a[2] == b[2])
            return FALSE
        if is_c(b) and b[2] == 0 and b[1] == "int" and a[0] == "len":
            return mk_not(("t", a[1]))
        if a[0] in ("b", "lin") or b[0] in ("b", "lin"):
            ra, ca = lin(a)
            rb, cb = lin(b)
            r = dict(ra)
            for k, v in rb.items():
                r[k] = r.get(k, 0) - v
                if r[k] == 0:
                    del r[k]
            c = ca - cb
            if not r:
                return C(c == 0)
            items = sorted(r.items(), key=repr)
            if items[0][1] < 0:
                items = [(k, -v) for k, v in items]
                c = -c
            return ("cmp", "==0", tuple(items), c)
        if not is_c(b) and repr(b) < repr(a):
            a, b = b, a
        return ("cmp", "==", a, b)
    return ("cmp", op, a, b)


def mk_not(t):
    if is_c(t):
        return C(not t[2])
    if t[0] == "not":
        return t[1]
    return ("not", t)


def truthy(t):
    """Condition term meaning bool(t)."""
    if is_c(t):
        return C(bool(t[2]))
    if t[0] in ("cmp", "and", "or", "not", "t"):
        if t[0] == "not":
            return mk_not(truthy(t[1]))
        return t
    if t[0] == "len":
        return ("t", t[1])
    if t[0] in ("tuple", "list", "set", "clist"):
        return C(len(t[1]) > 0)
    if t[0] in ("fn", "cls", "closure", "bound", "lam", "g"):
        return TRUE
    if t[0] == "any":
        return ("t", t)
    return ("t", t)


# ------------------------------------------------------------------ printing
_OPS = {"Add": "+", "Sub": "-", "Mult": "*", "Div": "/", "FloorDiv": "//", "Mod": "%", "BitAnd": "&", "BitOr": "|",
        "BitXor": "^", "Pow": "**", "MatMult": "@", "LShift": "<<", "RShift": ">>"}


def show(t, d=0):
    if not isinstance(t, tuple) or not t:
        return repr(t)
    if d > 12:
        return "…"
    s = lambda x: show(x, d + 1)
    k = t[0]
    if not isinstance(k, str):
        return "(" + ", ".join(s(x) for x in t) + ")"
    if k == "method":
        return "." + str(t[1])
    if k == "call" and isinstance(t[1], tuple) and t[1][0] == "method" and t[2]:
        return f"{s(t[2][0])}.{t[1][1]}({', '.join([s(x) for x in t[2][1:]] + [f'{a}={s(b)}' for a, b in t[3]])})"
    if k == "c":
        return repr(t[2])
    if k == "p":
        return t[1]
    if k == "g":
        return t[1]
    if k == "a":
        return f"{s(t[1])}.{t[2]}"
    if k == "i":
        return f"{s(t[1])}[{s(t[2])}]"
    if k == "s":
        return ":".join("" if x == NONE else s(x) for x in t[1:3])
    if k == "len":
        return f"len({s(t[1])})"
    if k == "t":
        return f"bool({s(t[1])})"
    if k == "b":
        return f"({s(t[2])} {t[1]} {s(t[3])})"
    if k == "u":
        return f"{t[1]}{s(t[2])}"
    if k == "not":
        return f"not {s(t[1])}"
    if k in ("and", "or"):
        return "(" + f" {k} ".join(s(x) for x in t[1]) + ")"
    if k == "cmp":
        if t[1] in ("<0", "==0"):
            e = " + ".join(f"{v}*{s(x)}" if v != 1 else s(x) for x, v in t[2])
            return f"{e} + {t[3]} {t[1][:-1]} 0"
        return f"{s(t[2])} {t[1]} {s(t[3])}"
    if k == "call":
        return f"{s(t[1])}({', '.join(s(x) for x in t[2])}" + (", " if t[2] and t[3] else "") + ", ".join(f"{a}={s(b)}" for a, b in t[3]) + ")"
    if k in ("fn", "cls"):
        return t[1].split(":")[-1]
    if k == "bound":
        return f"{s(t[1])}.{t[2].split('.')[-1]}"
    if k == "elem":
        return f"each({s(t[1])})"
    if k in ("tuple", "list", "clist", "set"):
        return "[" + ", ".join(s(x) for x in t[1]) + "]"
    if k == "new":
        return f"<{t[2]}@{t[1][0] if isinstance(t[1], tuple) else t[1]}>"
    if k == "lin":
        return "(" + " + ".join(f"{v}*{s(x)}" if v != 1 else s(x) for x, v in t[1]) + (f" + {t[2]}" if t[2] else "") + ")"
    if k in ("any", "all"):
        return f"{k}({s(t[1])})"
    if k == "phi":
        return f"?{t[2]}"
    return k + "(" + ", ".join(s(x) if isinstance(x, tuple) else str(x) for x in t[1:]) + ")"
