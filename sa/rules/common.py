"""Helpers shared by the rule modules."""
import ast

from ..absint import EXC_ANY, EXC_BASE, Engine, Rule, Ev  # noqa
from ..loader import AnalysisBroken  # noqa
from ..terms import *  # noqa
from ..terms import NONE, TRUE, FALSE, C, A, I, P, SELF, is_c, is_strc, show, subterms, mentions, contains, lin, root, mk_cmp, mk_not, mk_index, num_norm, subst, truthy  # noqa

LIB = "libensemble."
INF = {("g", "numpy.inf"), ("call", ("g", "float"), (C("inf"),), ()), ("g", "math.inf"), C(float("inf"))}
NP = "numpy."


def callname(t):
    """Dotted name of a call term's callee ('numpy.sum', '.recv' for methods), or None."""
    if t[0] != "call":
        return None
    c = t[1]
    if c[0] == "g":
        return c[1]
    if c[0] == "method":
        return "." + c[1]
    if c[0] in ("fn", "cls"):
        return c[1]
    return None


WRAP = {"numpy.atleast_1d", "numpy.asarray", "numpy.array", "list", "tuple", "numpy.asanyarray", "numpy.ravel"}


def strip_arr(t):
    """Drop array conversions that keep the elements."""
    while True:
        n = callname(t)
        if n in WRAP and t[2]:
            t = t[2][0]
        elif n in (".copy", ".flatten", ".ravel", ".tolist", ".astype") and t[2]:
            t = t[2][0]
        else:
            return t


def strip_deep(t):
    """strip_arr applied at every level."""
    if not isinstance(t, tuple) or is_c(t):
        return t
    t = tuple(strip_deep(x) if isinstance(x, tuple) else x for x in t)
    if t and t[0] == "call":
        s = strip_arr(t)
        if s != t:
            return strip_deep(s)
    if t and t[0] == "a" and t[2] == "size":
        return ("len", t[1])
    if t and t[0] == "call" and t[1] == ("g", "len") and len(t[2]) == 1:
        return ("len", t[2][0])
    return t


def is_elem_of(t, q):
    """t is one element of q, produced by iterating over q (directly or by position)."""
    t, q = strip_deep(t), strip_deep(q)
    if t[0] == "elem":
        return strip_arr(t[1]) == q
    if t[0] == "i" and strip_arr(t[1]) == q:
        return True if t[2][0] in ("elem", "idx") else False
    return any(x[0] in ("elem", "idx") and mk_index(q, x) == t for x in subterms(t))


def is_position_in(t, q):
    """t is a position running over q (enumerate index, or range(len(q)))."""
    t, q = strip_deep(t), strip_deep(q)
    if t[0] == "idx":
        return True
    return t[0] == "elem" and callname(t[1]) == "range" and t[1][2] and t[1][2][-1] == ("len", q)


def path_of(loc):
    """(root-ish base, [indices]) splitting off trailing subscripts."""
    idx = []
    while loc[0] == "i":
        idx.append(loc[2])
        loc = loc[1]
    return loc, idx[::-1]


def is_truec(v):
    return is_c(v) and v[2] in (True, 1, 1.0) and v[1] in ("bool", "int", "float")


def is_zeroc(v):
    return is_c(v) and v[2] in (False, 0, 0.0) and v[1] in ("bool", "int", "float")


def lin_eq(a, b):
    ra, ca = lin(strip_deep(a))
    rb, cb = lin(strip_deep(b))
    return ra == rb and ca == cb


def lin_diff(a, b):
    """({atom: coef}, const) of a-b"""
    ra, ca = lin(("b", "-", strip_deep(a), strip_deep(b)))
    return ra, ca


def unlin(t):
    """Linear-form terms back to lin() input."""
    return t


def facts_has(st, atom, val):
    return st.facts.get(atom) is val


def conj_fact(st, cond):
    """Truth of a condition under the state's facts: True / False / None."""
    cond = truthy(cond)
    if is_c(cond):
        return bool(cond[2])
    if cond[0] == "not":
        r = conj_fact(st, cond[1])
        return None if r is None else not r
    if cond[0] in ("and", "or"):
        rs = [conj_fact(st, c) for c in cond[1]]
        if cond[0] == "and":
            return False if False in rs else (None if None in rs else True)
        return True if True in rs else (None if None in rs else False)
    return st.facts.get(cond)


class Labels(Rule):
    """Collects labels of events into st.rs (a frozenset)."""

    def __init__(self, label, **kw):
        self._label = label
        self.viol = []
        for k, v in kw.items():
            setattr(self, k, v)

    def on_event(self, ev, st, eng):
        r = self._label(ev, st, eng)
        if r is not None:
            rs = st.rs or frozenset()
            st.rs = rs | (r if isinstance(r, (set, frozenset)) else {r})


class Seq(Rule):
    """Collects labels in order into st.rs (a tuple, bounded); repeated adjacent labels collapse unless keep."""

    def __init__(self, label, keep=False, limit=40, **kw):
        self._label, self.keep, self.limit = label, keep, limit
        for k, v in kw.items():
            setattr(self, k, v)

    def on_event(self, ev, st, eng):
        r = self._label(ev, st, eng)
        if r is None:
            return
        rs = st.rs or ()
        if not self.keep and rs and rs[-1] == r:
            return
        if len(rs) < self.limit:
            st.rs = rs + (r,)


class Fn(Rule):
    """A rule from plain callables."""

    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)

    def on_event(self, ev, st, eng):
        f = getattr(self, "event", None)
        if f:
            f(ev, st, eng)


def names_atom(atom, field):
    """atom is `field in <something>.names` / `... .fields`?"""
    return atom[0] == "cmp" and atom[1] == "in" and atom[2] == C(field) and atom[3][0] == "a" and atom[3][2] in ("names", "fields")


def all_calls(fi):
    """Call nodes in a function body, nested functions included."""
    return [n for n in ast.walk(fi.node) if isinstance(n, ast.Call)]


def module_funcs(p, mod):
    return [f for f in p.funcs.values() if f.module.name == mod]


def method_name(call):
    return call.func.attr if isinstance(call.func, ast.Attribute) else (call.func.id if isinstance(call.func, ast.Name) else None)


def enclosing_func(p, mod, node):
    best = None
    for f in p.funcs.values():
        if f.module is mod and f.node.lineno <= node.lineno <= f.node.end_lineno:
            if best is None or f.node.lineno >= best.node.lineno:
                best = f
    return best


# ---------------------------------------------------------------- constants, call graph, loops
def K(p, name, mod="message_numbers"):
    m = p.module(LIB + mod)
    if name not in m.assigns:
        raise AnalysisBroken(f"{mod}.{name} is gone")
    try:
        return C(p.const(m, m.assigns[name]))
    except ValueError:
        raise AnalysisBroken(f"{mod}.{name} is not a constant the analysis can read")


def callees(p, fi):
    """In-repo functions a body may call, resolved by method name within its class (and bases) or by plain name."""
    out = []
    for n in all_calls(fi):
        f = n.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ("self", "cls") and fi.cls is not None:
            m = p.method(fi.cls, f.attr)
            if m:
                out.append(m)
        elif isinstance(f, ast.Name):
            r = p.resolve(fi.module, f.id)
            if r and r[0] == "fn":
                out.append(r[1])
            for g in p.funcs.values():
                if g.parent is fi and g.name == f.id:
                    out.append(g)
        elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
            r = p.resolve(fi.module, f.value.id)
            if r and r[0] == "cls":
                m = p.method(r[1], f.attr)
                if m:
                    out.append(m)
    return out


def reaches(p, fi, pred, _seen=None):
    """Does fi call (transitively) something satisfying pred?"""
    seen = _seen if _seen is not None else set()
    if fi.qual in seen:
        return False
    seen.add(fi.qual)
    for g in callees(p, fi):
        if pred(g) or reaches(p, g, pred, seen):
            return True
    return False


def reach_inline(p, *names):
    """inline() predicate: enter only helpers on the way to the named functions (which themselves stay opaque)."""
    memo = {}

    def inline(f, eng):
        if f.name in names:
            return False
        if f.qual not in memo:
            memo[f.qual] = reaches(p, f, lambda g: g.name in names)
        return memo[f.qual]
    return inline


class IterFx(Rule):
    """Labels per iteration of the matched loop.  st.rs = (outer labels, labels of the open iteration or None).
    on close, close(cur, st, ev, eng) judges the iteration; labels then join the outer set via keep()."""

    def __init__(self, match, label, close, **kw):
        self.match, self._label, self.close = match, label, close
        for k, v in kw.items():
            setattr(self, k, v)

    def on_event(self, ev, st, eng):
        outer, cur = st.rs or (frozenset(), None)
        if ev.kind in ("loop", "iter", "iterend", "loopend") and self.match(ev, st):
            if ev.kind == "loop":
                st.rs = (outer | {("loop",)}, None)
            elif ev.kind == "iter":
                st.rs = (outer, frozenset())
            elif ev.kind == "iterend":
                if cur is not None:
                    self.close(cur, st, ev, eng)
                st.rs = (outer, None)
            return
        r = self._label(ev, st, eng)
        if r is None:
            return
        r = r if isinstance(r, (set, frozenset)) else {r}
        st.rs = (outer, cur | r) if cur is not None else (outer | r, cur)


def mask_atoms(m):
    """Element-wise mask -> list of (atom term, polarity) it is a conjunction of; None when of another shape."""
    if m[0] == "b" and m[1] == "&" or m[0] == "and":
        parts = m[2:4] if m[0] == "b" else m[1]
        out = []
        for x in parts:
            r = mask_atoms(x)
            if r is None:
                return None
            out += r
        return out
    if callname(m) in ("numpy.logical_and", "numpy.bitwise_and") and len(m[2]) == 2:
        a, b = mask_atoms(m[2][0]), mask_atoms(m[2][1])
        return None if a is None or b is None else a + b
    if m[0] == "u" and m[1] in ("~", "not") or m[0] == "not" or callname(m) in ("numpy.logical_not", "numpy.invert"):
        x = m[2] if m[0] == "u" else (m[1] if m[0] == "not" else m[2][0])
        r = mask_atoms(x)
        if r is None or len(r) != 1:
            return None
        return [(r[0][0], not r[0][1])]
    if m[0] == "t":
        return mask_atoms(m[1])
    if m[0] == "cmp":
        if m[1] == "<0" and len(m[2]) == 1 and m[3] == 0:
            (k, v), = m[2]
            if v == -1:
                return [(k, True)]          # 0 < x
            return None
        if m[1] == "==" and is_c(m[3]):
            if is_zeroc(m[3]):
                return [(m[2], False)]
            if is_truec(m[3]) and m[3][1] == "bool":
                return [(m[2], True)]
        return [(m, True)]
    return [(m, True)]


# ---------------------------------------------------------------- truth tables
class Table(Rule):
    """Valuation-driven run: decide(atom) -> bool/None fixes guards; undecided atoms matching watch are remembered."""

    def __init__(self, decide, values=None, watch=None, label=None, **kw):
        self.decide, self.values, self.watch, self._label = decide, values or {}, watch, label
        self.undecided = []
        for k, v in kw.items():
            setattr(self, k, v)

    def oracle(self, atom, st, eng):
        r = self.decide(atom)
        if r is None and self.watch is not None and self.watch(atom) and atom not in self.undecided:
            self.undecided.append(atom)
        return r

    def value(self, term, st, eng):
        return self.values.get(term)

    def on_event(self, ev, st, eng):
        if self._label is None:
            return
        r = self._label(ev, st, eng)
        if r is None:
            return
        rs = st.rs or ()
        if len(rs) < 30:
            st.rs = rs + ((r,) if not isinstance(r, list) else tuple(r))


def truth(term, decide, st=None):
    """Truth of a (condition) term under a valuation: True/False/None."""
    t = truthy(term)
    if is_c(t):
        return bool(t[2])
    if t[0] == "not":
        r = truth(t[1], decide, st)
        return None if r is None else not r
    if t[0] in ("and", "or"):
        rs = [truth(c, decide, st) for c in t[1]]
        if t[0] == "and":
            return False if False in rs else (None if None in rs else True)
        return True if True in rs else (None if None in rs else False)
    if st is not None and t in st.facts:
        return st.facts[t]
    return decide(t)


def has_loop(res):
    return any(True for st, _ in res["return"] for x in (st.rs or ()) if x == ("loop",))


def lt_is(atom, pos, const=0):
    """Atom `sum(pos) + const < 0` with exactly these coefficients (keys compared after call-site stripping)?"""
    if atom[0] != "cmp" or atom[1] != "<0" or atom[3] != const:
        return False
    return {nosite(k): v for k, v in atom[2]} == {nosite(k): v for k, v in pos.items()}


def nosite(t):
    """Drop call-site ids of opaque calls."""
    if not isinstance(t, tuple) or is_c(t):
        return t
    if t and t[0] == "call" and len(t) == 5:
        t = t[:4]
    return tuple(nosite(x) if isinstance(x, tuple) else x for x in t)


def args_of(ev, fi, bound=True):
    """Arguments of a call event by parameter name of fi (self skipped)."""
    names = fi.params[1:] if bound and fi.cls is not None and not fi.is_static else list(fi.params)
    out = dict(zip(names, ev.args or ()))
    out.update(ev.kw or {})
    a = fi.node.args
    dn = [x.arg for x in (a.posonlyargs + a.args)][-len(a.defaults):] if a.defaults else []
    for n, d in zip(dn, a.defaults):
        if n not in out and isinstance(d, ast.Constant):
            out[n] = C(d.value)
    return out


def cls_fields(p, qual):
    """Annotated field names of a class body (bases in the package included)."""
    c = p.cls(qual)
    out = []
    for k in reversed(p.mro(c)):
        for n in k.node.body:
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                out.append(n.target.id)
    return out


# ---------------------------------------------------------------- one-row evaluation of element-wise array terms
class Unk(Exception):
    """The term cannot be evaluated for the given row."""


NOVAL = object()


def rowval(t, leaf):
    """Value of an element-wise term for one row; leaf(t) gives the value of a field/parameter or NOVAL."""
    v = leaf(t)
    if v is not NOVAL:
        return v
    k = t[0]
    if is_c(t):
        return t[2]
    if k == "not":
        return not rowval(t[1], leaf)
    if k == "t":
        return bool(rowval(t[1], leaf))
    if k == "u":
        x = rowval(t[2], leaf)
        if t[1] in ("~", "not") and isinstance(x, bool):
            return not x
        if t[1] == "-":
            return -x
        raise Unk(t)
    if k in ("and", "or"):
        out, unk = [], None
        for x in t[1]:
            try:
                out.append(bool(rowval(x, leaf)))
            except Unk as e:
                unk = e
        if (k == "and" and False in out) or (k == "or" and True in out):
            return k == "or"
        if unk:
            raise unk
        return k == "and"
    if k == "b" and t[1] in ("&", "|", "^", "+", "-", "*"):
        vals = []
        for x in t[2:4]:
            try:
                vals.append(rowval(x, leaf))
            except Unk:
                vals.append(NOVAL)
        if t[1] == "&" and False in [v for v in vals if isinstance(v, bool)]:
            return False
        if t[1] == "|" and True in [v for v in vals if isinstance(v, bool)]:
            return True
        if NOVAL in vals:
            raise Unk(t)
        a, b = vals
        try:
            return {"&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b, "+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b}[t[1]]()
        except TypeError:
            raise Unk(t)
    if k == "cmp":
        if t[1] == "==":
            return rowval(t[2], leaf) == rowval(t[3], leaf)
        if t[1] in ("<0", "==0"):
            try:
                s = sum(n * rowval(x, leaf) for x, n in t[2]) + t[3]
            except TypeError:
                raise Unk(t)
            return s < 0 if t[1] == "<0" else s == 0
        if t[1] == "in" and t[3][0] in ("list", "tuple", "set", "clist"):
            a = rowval(t[2], leaf)
            return any(a == rowval(x, leaf) for x in t[3][1])
        raise Unk(t)
    n = callname(t)
    if n in ("numpy.logical_and", "numpy.bitwise_and", "numpy.logical_or", "numpy.bitwise_or", "numpy.logical_xor", "numpy.not_equal", "numpy.equal") and len(t[2]) == 2:
        if "and" in n:
            return rowval(("b", "&") + tuple(t[2]), leaf)
        if "xor" in n:
            return rowval(("b", "^") + tuple(t[2]), leaf)
        if "or" in n:
            return rowval(("b", "|") + tuple(t[2]), leaf)
        r = rowval(t[2][0], leaf) == rowval(t[2][1], leaf)
        return r if n == "numpy.equal" else not r
    if n in ("numpy.logical_not", "numpy.invert") and len(t[2]) == 1:
        return not rowval(t[2][0], leaf)
    if n in ("numpy.logical_and.reduce", "numpy.logical_or.reduce", "numpy.bitwise_and.reduce") and t[2] and t[2][0][0] in ("tuple", "list", "clist"):
        return rowval(("or" if "or.r" in n else "and", tuple(t[2][0][1])), leaf)
    if n in WRAP or n in ("bool", "numpy.bool_", "int", ".astype", ".copy") and t[2]:
        return rowval(t[2][0], leaf)
    if n in ("numpy.ones", "numpy.ones_like", "numpy.zeros", "numpy.zeros_like", "numpy.full"):
        if n == "numpy.full" and len(t[2]) > 1:
            return rowval(t[2][1], leaf)
        return "ones" in n
    if n == "numpy.where" and len(t[2]) == 3:
        return rowval(t[2][1] if rowval(t[2][0], leaf) else t[2][2], leaf)
    if k == "ifexp":
        return rowval(t[2] if rowval(t[1], leaf) else t[3], leaf)
    raise Unk(t)


def rowsel(t, leaf):
    """Is the row with these values in the selection t (a boolean mask, where/nonzero/flatnonzero of one)?"""
    n = callname(t)
    if n in ("numpy.flatnonzero", "numpy.where", "numpy.nonzero", "numpy.argwhere") and len(t[2]) == 1:
        return bool(rowval(t[2][0], leaf))
    if t[0] == "i" and t[2] == C(0) and callname(t[1]) in ("numpy.where", "numpy.nonzero") and len(t[1][2]) == 1:
        return bool(rowval(t[1][2][0], leaf))
    if n == ".nonzero":
        return bool(rowval(t[2][0], leaf))
    if n in WRAP or n in (".copy", ".flatten", ".ravel", ".tolist", ".astype"):
        return rowsel(t[2][0], leaf)
    v = rowval(t, leaf)
    if not isinstance(v, bool):
        raise Unk(t)
    return v


def rowsat(m, fixed, isfree):
    """Can a row with the fixed field values be selected by m, for some value of the remaining (free) boolean leaves?  Raises Unk when m is not understood."""
    free = []

    def leaf(x):
        v = fixed(x)
        if v is not NOVAL:
            return v
        if x in free:
            return cur[free.index(x)]
        if isfree(x):
            free.append(x)
            raise Retry
        return NOVAL

    class Retry(Exception):
        pass
    for _ in range(8):
        import itertools as it
        n = len(free)
        res, again, unk = False, False, None
        for cur in it.product((True, False), repeat=n):
            try:
                res = res or rowsel(m, leaf)
            except Retry:
                again = True
                break
            except Unk as e:
                unk = e
        if not again:
            if not res and unk:
                raise unk
            return res
    raise Unk(m)
