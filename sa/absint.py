"""Path-sensitive dataflow engine.

A syntax-directed walk over sets of abstract states.  A state is (frames of name->term, heap of location->term, known
facts about guard atoms, a rule-specific hashable automaton state).  Branches refine facts; states are merged at joins
when they agree on automaton state, facts and constant-valued variables (coarser above a cap); loops run to a fixpoint
with widening; calls to resolved in-repo functions are entered.  There is no concrete execution and no solver."""
import ast

from .loader import AnalysisBroken
from .terms import *  # noqa

MAXDEPTH = 9
BUILTIN_PURE = {
    "len", "isinstance", "issubclass", "getattr", "hasattr", "any", "all", "sum", "min", "max", "abs", "sorted", "set",
    "int", "float", "str", "bool", "range", "enumerate", "zip", "repr", "type", "callable", "round", "frozenset", "id",
    "map", "filter", "reversed", "iter", "next", "print", "super", "divmod", "vars", "bytes", "hash", "chr", "ord",
}
NUMPY_IMPURE = {"numpy.save", "numpy.savez", "numpy.load"}
MUTATORS = {"append", "remove", "add", "discard", "pop", "popitem", "update", "clear", "extend", "insert", "setdefault",
            "sort", "reverse", "popleft", "appendleft"}
LOGGERISH = ("logger", "logging")
EXC_ANY = "any"          # some Exception
EXC_BASE = "base"        # some BaseException that is not an Exception (KeyboardInterrupt, SystemExit)


class St:
    __slots__ = ("frames", "heap", "facts", "rs", "exc")

    def __init__(self, frames=(), heap=None, facts=None, rs=None, exc=None):
        self.frames, self.heap, self.facts, self.rs, self.exc = frames, heap or {}, facts or {}, rs, exc

    def copy(self):
        return St(tuple(dict(f) for f in self.frames), dict(self.heap), dict(self.facts), self.rs, self.exc)

    @property
    def env(self):
        return self.frames[-1]


class Ev:
    """An event shown to the rule."""
    __slots__ = ("kind", "node", "func", "callee", "base", "name", "args", "kw", "loc", "value", "old", "stack", "extra", "mod")

    def __init__(self, kind, node, **k):
        self.kind, self.node = kind, node
        for a in ("func", "callee", "base", "name", "args", "kw", "loc", "value", "old", "stack", "extra", "mod"):
            setattr(self, a, k.get(a))

    @property
    def line(self):
        return getattr(self.node, "lineno", 0)

    def where(self):
        f = self.func
        return f"{f.module.path}:{self.line} ({f.qual.split(':')[-1]})" if f else f"line {self.line}"

    def __repr__(self):
        if self.kind == "call":
            return f"call {self.callee or show(self.base) + '.' + str(self.name)}({', '.join(show(a) for a in self.args)})"
        if self.kind in ("store", "del"):
            return f"{self.kind} {show(self.loc)} = {show(self.value) if self.value else ''}"
        return f"{self.kind} {self.name or ''}"


class Rule:
    """Callbacks; override what is needed."""
    cap = 160
    havoc = True              # calls that are not entered forget what they may store to
    base_exc = False          # also consider KeyboardInterrupt-like exits of opaque calls

    def on_event(self, ev, st, eng):
        pass

    def inline(self, fi, eng):
        return True

    def may_raise(self, ev, st, eng):
        """May this opaque call raise?"""
        return False

    def oracle(self, atom, st, eng):
        """Truth of a guard atom fixed by the rule's valuation, or None."""
        return None

    def value(self, term, st, eng):
        """Value of a location fixed by the rule's valuation, or None."""
        return None

    def relevant(self, atom):
        return True

    def types(self, term, st, eng):
        """Extra class quals for a term, or None."""
        return None

    def call_value(self, ev, st, eng):
        """Value returned by an opaque call, or None for a fresh symbol."""
        return None


class Engine:
    def __init__(self, project, rule, types=None):
        self.p = project
        self.rule = rule
        self.func_stack = []
        self.sinks = []
        self.typetab = types or {}
        self.nodes_seen = set()
        self.funcs_seen = set()
        self.calls_seen = 0
        self.closures = {}
        self.caps = []
        self.loop_iters = 0

    # ================================================================= entry
    def run(self, fi, args=None, heap=None, facts=None, rs=None, self_term=SELF, cls=None):
        """Analyse function fi with symbolic (or given) arguments.
        -> dict with 'return': [(St, term)], 'raise': [St]"""
        env = {}
        args = dict(args or {})
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        for n in names:
            env[n] = args.get(n, P(n))
        if names and fi.cls is not None and not fi.is_static and names[0] in ("self", "cls") and names[0] not in args:
            env[names[0]] = self_term if names[0] == "self" else ("cls", fi.cls.qual)
            if names[0] == "self" and self_term not in self.typetab:
                self.typetab[self_term] = {(cls or fi.cls).qual}
        if a.vararg:
            env[a.vararg.arg] = args.get(a.vararg.arg, P(a.vararg.arg))
        if a.kwarg:
            env[a.kwarg.arg] = args.get(a.kwarg.arg, P(a.kwarg.arg))
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.annotation is not None and x.arg not in args:
                k = self.p.cls_of_expr(fi.module, x.annotation)
                if k:
                    self.typetab.setdefault(env[x.arg], set()).add(k.qual)
        st = St((env,), dict(heap or {}), dict(facts or {}), rs)
        sink = []
        self.sinks.append(sink)
        self.func_stack.append(fi)
        self.funcs_seen.add(fi.qual)
        try:
            out = self.block(fi.node.body, [st])
        finally:
            self.func_stack.pop()
            self.sinks.pop()
        rets = list(out["return"]) + [(s, NONE) for s in out["next"]]
        return {"return": rets, "raise": self.merge(sink)}

    # ================================================================= helpers
    @property
    def fn(self):
        return self.func_stack[-1]

    def emit(self, kind, node, st, **k):
        ev = Ev(kind, node, func=self.fn, stack=tuple(f.qual for f in self.func_stack), mod=self.fn.module, **k)
        self.rule.on_event(ev, st, self)
        return ev

    def raise_(self, st, exc):
        s = st.copy()
        s.exc = exc
        self.sinks[-1].append(s)

    # ----------------------------------------------------------------- merging
    def _key(self, st, coarse):
        rel = self.rule.relevant
        facts = frozenset((a, v) for a, v in st.facts.items() if coarse < 2 and rel(a))
        if coarse == 0:
            env = tuple(frozenset((k, v) for k, v in f.items() if isinstance(v, tuple) and v[0] in ("c", "new", "fn", "closure", "bound")) for f in st.frames)
            heap = frozenset((k, v) for k, v in st.heap.items() if v[0] in ("c", "deleted"))
        elif coarse == 1:
            env = len(st.frames)
            heap = frozenset((k, v) for k, v in st.heap.items() if v[0] == "c" and isinstance(v[2], bool))
        else:
            env = len(st.frames)
            heap = None
        return (st.rs, st.exc, facts, env, heap)

    def merge(self, states, coarse=0):
        if len(states) <= 1:
            return list(states)
        groups = {}
        for s in states:
            groups.setdefault(self._key(s, coarse), []).append(s)
        out = [self._merge_group(g) for g in groups.values()]
        if len(out) > self.rule.cap and coarse < 2:
            return self.merge(out, coarse + 1)
        return out

    def _merge_group(self, g):
        if len(g) == 1:
            return g[0]
        a = g[0].copy()
        for b in g[1:]:
            frames = []
            for d, (fa, fb) in enumerate(zip(a.frames, b.frames)):
                if fa == fb:
                    frames.append(fa)
                    continue
                f = {}
                for k in set(fa) | set(fb):
                    va, vb = fa.get(k), fb.get(k)
                    f[k] = va if va == vb else ("phi", d, k)
                frames.append(f)
            a.frames = tuple(frames)
            h = {}
            for k in set(a.heap) | set(b.heap):
                va, vb = a.heap.get(k), b.heap.get(k)
                if va is not None and va == vb:
                    h[k] = va
                else:
                    h[k] = ("phi", "h", show(k))
            a.heap = h
            a.facts = {k: v for k, v in a.facts.items() if b.facts.get(k) == v}
        return a

    # ----------------------------------------------------------------- facts
    def lookup(self, atom, st):
        """Known truth of a canonical atom."""
        if atom in st.facts:
            return st.facts[atom]
        v = self.rule.oracle(atom, st, self)
        if v is None and atom[0] == "cmp" and atom[1] == "==" and is_c(atom[3]):
            for (k, val) in st.facts.items():
                if val and k[0] == "or" and k[1][0][2] == atom[2] and all(mk_cmp("==", c[3], atom[3]) == FALSE for c in k[1]):
                    return False
        if v is not None:
            return v
        if atom[0] == "cmp" and atom[1] == "==" and is_c(atom[3]):
            x = atom[2]
            xv = self.rule.value(x, st, self)
            if xv is not None and is_c(xv):
                return cval(mk_cmp("==", xv, atom[3]))
            for (k, val) in st.facts.items():
                if val and k[0] == "cmp" and k[1] == "==" and k[2] == x and is_c(k[3]) and k[3] != atom[3]:
                    if mk_cmp("==", k[3], atom[3]) == FALSE:
                        return False
            if x[0] == "i" and is_strc(x[2]) and atom[3] == NONE:
                f = st.facts.get(("cmp", "in", x[2], x[1]))
                if f is False:
                    return True
            if atom[3] == NONE:
                if st.facts.get(("t", x)):
                    return False
                if x[0] in ("new", "fn", "cls", "bound", "closure", "lam", "tuple", "list"):
                    return False
        if atom[0] == "t":
            x = atom[1]
            xv = self.rule.value(x, st, self)
            if xv is not None and is_c(xv):
                return bool(xv[2])
            for (k, val) in st.facts.items():
                if val and k[0] == "cmp" and k[1] == "==" and k[2] == x and is_c(k[3]):
                    return bool(k[3][2])
            if x[0] == "i" and is_strc(x[2]):
                if st.facts.get(("cmp", "in", x[2], x[1])) is False:
                    return False
            if x[0] == "new":
                c = st.heap.get(("content", x))
                if c is not None:
                    if c[0] == "tuple":
                        return len(c[1]) > 0
                elif x[2] not in ("list", "dict", "set"):
                    return True
                if x[2] == "dict":
                    for k, v in st.heap.items():
                        if k[0] == "i" and k[1] == x and v[0] != "deleted":
                            return True
                    if ("partial", x) not in st.heap:
                        return False
        if atom[0] == "cmp" and atom[1] == "in":
            r = self.known_in(atom[2], atom[3], st)
            if r is not None:
                return r
        if atom[0] == "call" or atom[0] == "t" and atom[1][0] == "call":
            c = atom if atom[0] == "call" else atom[1]
            if c[1] == ("g", "isinstance"):
                r = self.known_isinstance(c[2][0], c[2][1], st)
                if r is not None:
                    return r
        return None

    def known_in(self, k, d, st):
        if d[0] == "new" and is_c(k):
            v = st.heap.get(("i", d, k))
            if v is not None:
                if v[0] == "deleted":
                    return False
                if v[0] != "phi":
                    return True
                return None
            if d[2] == "dict" and ("partial", d) not in st.heap:
                return False
            b = st.heap.get(("copyof", d))
            if b is not None:
                return self.lookup(("cmp", "in", k, b), st)
        elif d[0] != "new" and is_strc(k):
            v = st.heap.get(("i", d, k))
            if v is not None and v[0] != "phi":
                return v[0] != "deleted"
        return None

    def known_isinstance(self, x, t, st):
        if is_c(x):
            tn = {"dict", "list", "tuple", "str", "int", "bool", "float"}
            names = [t] if t[0] != "tuple" else list(t[1])
            nn = {n[1] for n in names if n[0] == "g"}
            if any(n[0] != "g" for n in names) and x != NONE:
                return None
            if x[1] == "bool" and "int" in nn:
                return True
            if nn & tn and x[1] in nn:
                return True
            return False
        if x[0] == "new" and x[2] in ("dict", "list", "set"):
            names = [t] if t[0] != "tuple" else list(t[1])
            nn = {n[1] for n in names if n[0] == "g"}
            if x[2] in nn:
                return True
            if all(n[0] in ("g", "cls") for n in names):
                return False
        if x[0] == "tuple":
            names = [t] if t[0] != "tuple" else list(t[1])
            if ("g", "tuple") in names:
                return True
            if all(n[0] in ("g", "cls") for n in names):
                return False
        if x[0] == "new" and t[0] == "cls" and x[2].startswith("obj:"):
            k = self.p.classes.get(x[2][4:])
            c = self.p.classes.get(t[1])
            if k and c:
                return c in self.p.mro(k)
        return None

    def split(self, cond, st):
        """Split a state on a condition term -> (true_states, false_states)."""
        cond = truthy(cond)
        if is_c(cond):
            return ([st], []) if cond[2] else ([], [st])
        k = cond[0]
        if k == "not":
            t, f = self.split(cond[1], st)
            return f, t
        if k == "and":
            live, fal = [st], []
            for c in cond[1]:
                nxt = []
                for s in live:
                    t, f = self.split(c, s)
                    nxt += t
                    fal += f
                live = nxt
            return live, fal
        if k == "or":
            wide = len(cond[1]) > 6 and all(c[0] == "cmp" and c[1] == "==" and c[2] == cond[1][0][2] and is_c(c[3]) for c in cond[1])
            if wide and st.facts.get(cond):
                return [st], []
            live, tru = [st], []
            for c in cond[1]:
                nxt = []
                for s in live:
                    t, f = self.split(c, s)
                    tru += t
                    nxt += f
                live = nxt
            if wide and len(tru) > 6:
                # one of many constants: a single state that only knows "it is one of them"
                t = st.copy()
                t.facts[cond] = True
                tru = [t]
            return tru, live
        if k == "cmp" and cond[1] == "in":
            items = self.seq_items(cond[3], st)
            if items is not None:
                return self.split(("or", tuple(truthy(mk_cmp("==", cond[2], i)) for i in items)) if items else FALSE, st)
        if k == "t" and cond[1][0] in ("cmp", "not", "and", "or"):
            return self.split(cond[1], st)
        if k == "t" and cond[1][0] in ("any", "all") and cond[1][1][0] in ("list", "tuple", "clist"):
            items = tuple(truthy(i) for i in cond[1][1][1])
            if not items:
                return ([], [st]) if cond[1][0] == "any" else ([st], [])
            return self.split(("or" if cond[1][0] == "any" else "and", items), st)
        v = self.lookup(cond, st)
        if v is True:
            return [st], []
        if v is False:
            return [], [st]
        a, b = st.copy(), st
        a.facts[cond] = True
        b = st.copy()
        b.facts[cond] = False
        return [a], [b]

    def seq_items(self, t, st):
        """Items of a fully known sequence term, or None."""
        if t[0] in ("tuple", "list", "clist", "set"):
            return list(t[1])
        if t[0] == "cdict":
            return [k for k, _ in t[1]]
        if t[0] == "new" and t[2] in ("list", "set"):
            c = st.heap.get(("content", t))
            if c is not None and c[0] == "tuple":
                return list(c[1])
        if t[0] == "new" and t[2] == "dict" and ("partial", t) not in st.heap:
            return [k[2] for k, v in st.heap.items() if k[0] == "i" and k[1] == t and v[0] != "deleted"]
        if t[0] == "call" and t[1] == ("g", "range") and all(is_c(a) and isinstance(a[2], int) for a in t[2]) and t[2]:
            r = range(*[a[2] for a in t[2]])
            if len(r) <= 12:
                return [C(i) for i in r]
        return None

    # ----------------------------------------------------------------- locations
    def kill(self, st, loc, keep_heap=False):
        """Forget facts and values that may depend on the location being overwritten."""
        key = last_key(loc)
        r = root(loc)

        def dep(t):
            if t == loc:
                return True
            if t[0] != loc[0]:
                return False
            lk = last_key(t)
            if key is None or lk is None:
                return t[1] == loc[1] or key is None and root(t) == r and contains(t[1], loc[1])
            if lk != key:
                return False
            if root(t) != r and r[0] == "new":
                return False
            # same field name of possibly the same object
            return self.may_alias(t[1], loc[1])

        st.facts = {a: v for a, v in st.facts.items() if not mentions(a, dep)}
        if loc[0] == "i" and loc[1][0] in ("b", "u", "call", "cmp", "not", "and", "or", "comp", "any", "all"):
            # element of an anonymous array: whatever was known about the array as a whole is void
            st.facts = {a: v for a, v in st.facts.items() if not contains(a, loc[1])}
        if not keep_heap:
            st.heap = {k: v for k, v in st.heap.items()
                       if not (k[0] in ("a", "i") and (k == loc or dep(k) or contains(k, loc) and k != loc))}

    def may_alias(self, x, y):
        if x == y:
            return True
        if x[0] == "new" and y[0] == "new":
            return False
        if x[0] == "a" and y[0] == "a" and x[1] == y[1]:
            return False          # distinct attributes of one object
        if x[0] == "p" and y[0] == "p":
            return False
        if x[0] == "i" and y[0] == "i" and is_c(x[2]) and is_c(y[2]) and x[1] == y[1]:
            return False
        if x[0] == "i" or y[0] == "i":
            bx = x[1] if x[0] == "i" else x
            by = y[1] if y[0] == "i" else y
            return self.may_alias(bx, by)
        if (x[0] == "new") != (y[0] == "new"):
            return False
        if x[0] == "p" or y[0] == "p":
            return False
        return True

    def store(self, st, loc, val, node, aug=None):
        old = st.heap.get(loc)
        self.emit("store", node, st, loc=loc, value=val, old=old, extra=aug)
        self.kill(st, loc)
        st.heap[loc] = val
        if loc[0] == "i" and loc[1][0] == "new":
            if not is_c(loc[2]):
                st.heap[("partial", loc[1])] = TRUE
                st.heap.pop(loc, None)
                st.heap.pop(("content", loc[1]), None)
        if loc[0] == "i" and is_strc(loc[2]):
            st.facts.pop(("cmp", "in", loc[2], loc[1]), None)
            st.facts[("cmp", "in", loc[2], loc[1])] = True
            if loc[1][0] == "new":
                st.facts.pop(("cmp", "in", loc[2], loc[1]))

    def load(self, st, loc, _d=0):
        v = self.rule.value(loc, st, self)
        if v is not None:
            return v
        v = st.heap.get(loc)
        if v is not None and v[0] not in ("phi", "deleted"):
            return v
        if v is None and loc[0] in ("i", "a") and _d < 4:
            b = st.heap.get(("copyof", loc[1]))
            if b is not None:
                if ("deepof", loc[1]) in st.heap and not is_strc(loc[2]):
                    return (loc[0], ("call", ("g", "copy.deepcopy"), (b,), ()), loc[2])
                return self.load(st, (loc[0], b, loc[2]), _d + 1)
        return loc

    # ----------------------------------------------------------------- types
    def type_of(self, t, st=None):
        r = self.typetab.get(t)
        if r:
            return r
        r = self.rule.types(t, st, self)
        if r:
            return r
        if t[0] == "new" and t[2].startswith("obj:"):
            return {t[2][4:]}
        if t[0] == "a":
            for q in self.type_of(t[1], st) or ():
                c = self.p.classes.get(q)
                if c:
                    at = self.p.attr_type(c, t[2])
                    if at:
                        return at
            if t[1][0] == "cls":
                h = HINTS.get((t[1][1], t[2]))
                if h:
                    return {h}
            for q in self.type_of(t[1], st) or ():
                for k in self.p.mro(self.p.classes[q]):
                    h = HINTS.get((k.qual, t[2]))
                    if h:
                        return {h}
        if t[0] == "call" and t[1][0] == "cls":
            return {t[1][1]}
        return set()

    # ================================================================= statements
    def block(self, stmts, states):
        out = {"next": [], "break": [], "continue": [], "return": []}
        cur = self.merge(states)
        for s in stmts:
            if not cur:
                break
            nxt = []
            for st in cur:
                o = self.stmt(s, st)
                nxt += o["next"]
                for k in ("break", "continue", "return"):
                    out[k] += o[k]
            cur = self.merge(nxt)
        out["next"] = cur
        for k in ("break", "continue"):
            out[k] = self.merge(out[k])
        out["return"] = self.merge_rets(out["return"])
        return out

    def merge_rets(self, rets):
        if len(rets) <= 1:
            return rets
        groups = {}
        for st, v in rets:
            k = (self._key(st, 0), v)
            groups.setdefault(k, []).append((st, v))
        out = [(self._merge_group([s for s, _ in g]), g[0][1]) for g in groups.values()]
        if len(out) > self.rule.cap:
            groups = {}
            for st, v in out:
                groups.setdefault((self._key(st, 2), v if is_c(v) else None), []).append((st, v))
            out = []
            for g in groups.values():
                v = g[0][1] if all(x[1] == g[0][1] for x in g) else ("phi", "ret", self.fn.name)
                out.append((self._merge_group([s for s, _ in g]), v))
        return out

    @staticmethod
    def _o(next=(), brk=(), cont=(), ret=()):
        return {"next": list(next), "break": list(brk), "continue": list(cont), "return": list(ret)}

    def stmt(self, s, st):
        self.nodes_seen.add(id(s))
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            # unknown statement: evaluate contained expressions for their events
            cur = [st]
            for ch in ast.iter_child_nodes(s):
                if isinstance(ch, ast.expr):
                    cur = [x for c in cur for x, _ in self.ev(ch, c)]
            return self._o(cur)
        return m(s, st)

    def s_Pass(self, s, st):
        return self._o([st])

    s_Import = s_ImportFrom = s_Global = s_Nonlocal = s_Pass

    def s_Import(self, s, st):
        st = st.copy()
        for a in s.names:
            n = a.asname or a.name.split(".")[0]
            st.env[n] = ("g", a.name if a.asname else n)
        return self._o([st])

    def s_ImportFrom(self, s, st):
        st = st.copy()
        for a in s.names:
            r = self.p.resolve_dotted(s.module or "", a.name)
            st.env[a.asname or a.name] = self.resolved_term(r)
        return self._o([st])

    def s_Nonlocal(self, s, st):
        st = st.copy()
        for n in s.names:
            st.env[("nonlocal", n)] = TRUE
        return self._o([st])

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return self._o([st])
        return self._o([x for x, _ in self.ev(s.value, st)])

    def s_Return(self, s, st):
        if s.value is None:
            self.emit("return", s, st, value=NONE)
            return self._o(ret=[(st, NONE)])
        out = []
        for x, v in self.ev(s.value, st):
            self.emit("return", s, x, value=v)
            out.append((x, v))
        return self._o(ret=out)

    def s_Break(self, s, st):
        return self._o(brk=[st])

    def s_Continue(self, s, st):
        return self._o(cont=[st])

    def s_FunctionDef(self, s, st):
        st = st.copy()
        cid = ("closure", (self.fn.qual, s.name), len(st.frames) - 1)
        q = f"{self.fn.qual}.<locals>.{s.name}"
        fi = self.p.funcs.get(q)
        if fi is None:
            from .loader import FuncInfo
            fi = FuncInfo(q, s, self.fn.module, self.fn.cls, self.fn)
        self.closures[cid[1]] = fi
        st.env[s.name] = cid
        return self._o([st])

    def s_ClassDef(self, s, st):
        st = st.copy()
        st.env[s.name] = ("localcls", self.fn.qual, s.name)
        return self._o([st])

    def s_Raise(self, s, st):
        if s.exc is None:
            self.raise_(st, self.cur_exc(st))
            return self._o()
        for x, v in self.ev(s.exc, st):
            exc = self.exc_of(v, x)
            self.emit("raise", s, x, value=v, name=exc)
            self.raise_(x, exc)
        return self._o()

    def cur_exc(self, st):
        for f in reversed(st.frames):
            if "@exc" in f:
                return f["@exc"][1]
        return EXC_ANY

    def exc_of(self, v, st):
        if v[0] == "call" and v[1][0] in ("cls", "g"):
            return v[1][1]
        if v[0] in ("cls", "g"):
            return v[1]
        if v[0] == "new" and v[2].startswith("obj:"):
            return v[2][4:]
        if v[0] == "excval":
            return v[1]
        return EXC_ANY

    def s_Assert(self, s, st):
        out = []
        for t, f in [self.branch(s.test, st)]:
            out += t
            for x in f:
                cur = [x]
                if s.msg is not None:
                    cur = [y for y, _ in self.ev(s.msg, x)]
                for y in cur:
                    self.emit("assertfail", s, y)
                    self.raise_(y, "AssertionError")
        return self._o(out)

    def s_If(self, s, st):
        t, f = self.branch(s.test, st)
        t, f = self.merge(t), self.merge(f)
        a = self.block(s.body, t) if t else self._o()
        b = self.block(s.orelse, f) if f else self._o()
        return {k: a[k] + b[k] for k in a}

    def s_While(self, s, st):
        return self.loop(s, st, None)

    def s_For(self, s, st):
        out = self._o()
        for x, it in self.ev(s.iter, st):
            items = self.seq_items(it, x)
            if it[0] == "call" and it[1] == ("g", "enumerate") and it[2]:
                sub = self.seq_items(it[2][0], x)
                if sub is not None:
                    items = [("tuple", (C(i), e)) for i, e in enumerate(sub)]
            if it[0] == "call" and it[1] == ("g", "zip") and it[2]:
                subs = [self.seq_items(a, x) for a in it[2]]
                if all(q is not None for q in subs):
                    items = [("tuple", t) for t in zip(*subs)]
            if it[0] == "call" and it[1] == ("g", "reversed") and it[2]:
                sub = self.seq_items(it[2][0], x)
                if sub is not None:
                    items = list(reversed(sub))
            if items is not None and len(items) <= 24:
                x = x.copy()
                self.emit("loop", s, x, value=None, extra=it)
                cur, brk = [x], []
                r0 = self.__dict__.get("round", ())
                for n, e in enumerate(items):
                    self.round = r0 + (n,)
                    nxt = []
                    for c in cur:
                        c2 = c.copy()
                        self.assign(s.target, e, c2, s)
                        self.emit("iter", s, c2, value=e, extra=it, name="item")
                        o = self.block(s.body, [c2])
                        for z in o["next"] + o["continue"]:
                            self.emit("iterend", s, z, value=e, extra=it, name="next")
                        for z in o["break"]:
                            self.emit("iterend", s, z, value=e, extra=it, name="break")
                        nxt += o["next"] + o["continue"]
                        brk += o["break"]
                        out["return"] += o["return"]
                    cur = self.merge(nxt)
                self.round = r0
                if s.orelse and cur:
                    o = self.block(s.orelse, cur)
                    for k in ("return", "break", "continue"):
                        out[k] += o[k]
                    cur = o["next"]
                for z in cur + brk:
                    self.emit("loopend", s, z, extra=it)
                out["next"] += self.merge(cur + brk)
            else:
                o = self.loop(s, x, it)
                for k in out:
                    out[k] += o[k]
        return out

    def loop(self, s, st, it):
        out = self._o()
        exits, seen = [], {}
        work = [st]
        n = 0
        is_for = it is not None
        elem = None
        if is_for:
            elem = self.elem_of(it, s, st)
        st = st.copy()
        self.emit("loop", s, st, value=elem, extra=it)
        work = [st]
        while work:
            n += 1
            self.loop_iters += 1
            if n > 40:
                raise AnalysisBroken(f"loop at {self.fn.module.path}:{s.lineno} does not converge")
            heads = self.merge(work, 0 if n <= 2 else (1 if n <= 5 else 2))
            fresh = []
            for h in heads:
                if n > 2:
                    # widen: merge with what was seen under the same coarse key
                    k = self._key(h, 1 if n <= 5 else 2)
                    if k in seen:
                        m = self._merge_group([seen[k], h])
                        if self._same(m, seen[k]):
                            continue
                        seen[k] = m
                        h = m
                    else:
                        seen[k] = h
                else:
                    k = (self._key(h, 0), n)
                fresh.append(h)
            work = []
            for h in fresh:
                if is_for:
                    if not (it[0] == "call" and it[1] == ("g", "itertools.count")):
                        exits.append(h)
                    b = h.copy()
                    self.forget_elem(b, elem, s)
                    self.emit("iter", s, b, value=elem, extra=it)
                    self.assign(s.target, elem, b, s)
                    bodies = [b]
                else:
                    self.emit("iter", s, h)
                    t, f = self.branch(s.test, h)
                    exits += f
                    bodies = t
                if not bodies:
                    continue
                o = self.block(s.body, bodies)
                for z in o["next"] + o["continue"]:
                    self.emit("iterend", s, z, value=elem, extra=it, name="next")
                for z in o["break"]:
                    self.emit("iterend", s, z, value=elem, extra=it, name="break")
                work += o["next"] + o["continue"]
                out["next"] += o["break"]
                out["return"] += o["return"]
            work = self.merge(work)
            if n > 60:
                break
        exits = self.merge(exits)
        if s.orelse and exits:
            o = self.block(s.orelse, exits)
            for k in ("return", "break", "continue"):
                out[k] += o[k]
            exits = o["next"]
        for z in out["next"] + exits:
            self.emit("loopend", s, z, value=elem, extra=it)
        out["next"] = self.merge(out["next"] + exits)
        return out

    @staticmethod
    def _same(a, b):
        return a.frames == b.frames and a.heap == b.heap and a.facts == b.facts and a.rs == b.rs

    def elem_of(self, it, s, st):
        site = (self.fn.qual, s.lineno, s.col_offset) if False else self.site(s)
        if it[0] == "call" and it[1] == ("g", "enumerate") and it[2]:
            return ("tuple", (("idx", site), ("elem", it[2][0], site)))
        if it[0] == "call" and it[1] == ("g", "zip"):
            return ("tuple", tuple(("elem", a, site) for a in it[2]))
        if it[0] == "items":
            k = ("elem", it[1], site)
            return ("tuple", (k, self.load(st, mk_index(it[1], k))))
        if it[0] == "values":
            return mk_index(it[1], ("elem", it[1], site))
        return ("elem", it, site)

    def site(self, node):
        """Stable-in-a-run site id: ordinal, not position (only used for identity)."""
        d = self.p.__dict__.setdefault("_sites", {})
        k = (id(node),)
        if k not in d:
            d[k] = len(d)
            self.p.__dict__.setdefault("_keep", []).append(node)
        return d[k]

    def asite(self, node):
        """Site of an allocation: told apart by the rounds of the unrolled comprehensions and loops around it."""
        r = self.__dict__.get("round", ())
        return (self.site(node),) + r if r else self.site(node)

    def forget_elem(self, st, elem, s):
        site = self.site(s)
        pred = lambda t: t[0] in ("elem", "idx") and t[-1] == site
        st.facts = {a: v for a, v in st.facts.items() if not mentions(a, pred)}
        st.heap = {k: v for k, v in st.heap.items() if not mentions(k, pred)}

    def s_With(self, s, st):
        return self._with(s, list(s.items), st)

    def _with(self, s, items, st):
        if not items:
            return self.block(s.body, [st])
        item = items[0]
        out = self._o()
        for x, ctx in self.ev(item.context_expr, st):
            x = x.copy()
            self.emit("enter", item.context_expr, x, value=ctx)
            quals = self.type_of(ctx, x)
            val = ctx
            cls = None
            for q in quals:
                cls = self.p.classes.get(q)
            cur = [(x, ctx)]
            enter = self.p.method(cls, "__enter__") if cls else None
            exit_ = self.p.method(cls, "__exit__") if cls else None
            if enter is not None and self.can_inline(enter):
                cur = self.call_fi(enter, item.context_expr, x, [ctx], {}, bound=ctx)
            for y, val in cur:
                y = y.copy()
                if item.optional_vars is not None:
                    self.assign(item.optional_vars, val, y, s)
                depth = len(y.frames)
                sink = []
                self.sinks.append(sink)
                o = self._with(s, items[1:], y)
                self.sinks.pop()

                def leave(z):
                    z = z.copy()
                    self.emit("exit", item.context_expr, z, value=ctx)
                    if exit_ is not None and self.can_inline(exit_):
                        return self.call_fi(exit_, item.context_expr, z, [ctx, P("etype"), P("evalue"), P("tb")], {}, bound=ctx)
                    return [(z, FALSE)]

                for k in ("next", "break", "continue"):
                    for z in o[k]:
                        out[k] += [q for q, _ in leave(z)]
                for z, v in o["return"]:
                    out["return"] += [(q, v) for q, _ in leave(z)]
                for z in self.merge(sink):
                    z.frames = z.frames[:depth]
                    exc = z.exc
                    for q, r in leave(z):
                        t, f = self.split(r, q) if exit_ is not None else ([], [q])
                        for g in f:
                            g = g.copy()
                            g.exc = exc
                            self.sinks[-1].append(g)
                        for g in t:
                            g = g.copy()
                            g.exc = None
                            self.emit("swallow", s, g, name=exc)
                            out["next"].append(g)
        return out

    def s_Try(self, s, st):
        depth = len(st.frames)
        sink = []
        self.sinks.append(sink)
        o = self.block(s.body, [st])
        self.sinks.pop()
        raised = self.merge(sink)
        for z in raised:
            z.frames = z.frames[:depth]
        raised = self.merge(raised)
        fin_sink = [] if s.finalbody else None
        if s.finalbody:
            self.sinks.append(fin_sink)
        if s.orelse and o["next"]:
            oe = self.block(s.orelse, o["next"])
            o["next"] = oe["next"]
            for k in ("break", "continue", "return"):
                o[k] += oe[k]
        for z in raised:
            z.frames = z.frames[:depth]
            self._handlers(s, z, o)
        if s.finalbody:
            self.sinks.pop()
            res = self._o()
            for k in ("next", "break", "continue"):
                if o[k]:
                    f = self.block(s.finalbody, self.merge(o[k]))
                    res[k] += f["next"]
                    for kk in ("break", "continue", "return"):
                        res[kk] += f[kk]
            for z, v in self.merge_rets(o["return"]):
                f = self.block(s.finalbody, [z])
                res["return"] += [(q, v) for q in f["next"]]
                for kk in ("break", "continue", "return"):
                    res[kk] += f[kk]
            for z in self.merge(fin_sink):
                z.frames = z.frames[:depth]
                exc = z.exc
                z = z.copy()
                z.exc = None
                z.env["@exc"] = ("excval", exc)
                f = self.block(s.finalbody, [z])
                for q in f["next"]:
                    q = q.copy()
                    q.exc = exc
                    self.sinks[-1].append(q)
                for kk in ("break", "continue", "return"):
                    if f[kk]:
                        for q in f[kk]:
                            self.emit("swallow", s, q[0] if kk == "return" else q, name=exc)
                    res[kk] += f[kk]
            return res
        return o

    s_TryStar = s_Try

    def _handlers(self, s, z, o):
        exc = z.exc
        for h in s.handlers:
            m = self.exc_matches(exc, h.type)
            if m is False:
                continue
            y = z.copy()
            y.exc = None
            caught = exc
            if m is None and exc == EXC_ANY and h.type is not None:
                caught = self.handler_exc(h.type) or exc
            old = y.env.get("@exc")
            y.env["@exc"] = ("excval", caught)
            if h.name:
                y.env[h.name] = ("excval", caught)
            self.emit("caught", h, y, name=caught)
            r = self.block(h.body, [y])
            for k in ("next", "break", "continue"):
                for q in r[k]:
                    q.env.pop("@exc", None)
                    if old is not None:
                        q.env["@exc"] = old
                    if h.name:
                        q.env.pop(h.name, None)
                    o[k].append(q)
            o["return"] += r["return"]
            if m is True:
                return
        self.sinks[-1].append(z)

    def handler_exc(self, t):
        if isinstance(t, ast.Tuple):
            return None
        k = self.p.cls_of_expr(self.fn.module, t)
        if k:
            return k.qual
        n = ast.unparse(t)
        if n in ("Exception", "BaseException"):
            return None
        if isinstance(t, ast.Name):
            r = self.p.resolve(self.fn.module, t.id)
            if r and r[0] == "g":
                return r[1]
        return n

    def exc_bases(self, exc):
        """Names of exc and all its ancestors."""
        out = {exc, exc.split(".")[-1].split(":")[-1]}
        c = self.p.classes.get(exc)
        if c:
            for k in self.p.mro(c):
                out.add(k.qual)
                out.add(k.name)
                for b in k.node.bases:
                    out |= self._builtin_exc(ast.unparse(b).split(".")[-1])
        else:
            out |= self._builtin_exc(exc.split(".")[-1])
        return out

    @staticmethod
    def _builtin_exc(n):
        import builtins
        k = getattr(builtins, n, None)
        if isinstance(k, type) and issubclass(k, BaseException):
            return {x.__name__ for x in k.__mro__}
        return {n, "Exception", "BaseException"}

    def exc_matches(self, exc, t):
        """True / False / None (maybe)."""
        if t is None:
            return True
        if isinstance(t, ast.Tuple):
            rs = [self.exc_matches(exc, x) for x in t.elts]
            return True if True in rs else (None if None in rs else False)
        n = ast.unparse(t)
        if n == "BaseException":
            return True
        if exc == EXC_BASE:
            return None if n in ("KeyboardInterrupt", "SystemExit", "GeneratorExit") else False
        if n == "Exception":
            if exc == EXC_ANY:
                return True
            return "Exception" in self.exc_bases(exc)
        if exc == EXC_ANY:
            return None
        k = self.p.cls_of_expr(self.fn.module, t)
        names = self.exc_bases(exc)
        if k:
            return k.qual in names
        if isinstance(t, ast.Name):
            r = self.p.resolve(self.fn.module, t.id)
            if r and r[0] == "g" and r[1] in names:
                return True
        return n.split(".")[-1] in names

    # ----------------------------------------------------------------- assignment
    def s_Assign(self, s, st):
        out = []
        for x, v in self.ev(s.value, st):
            x = x.copy()
            for t in s.targets:
                self.assign(t, v, x, s)
            out.append(x)
        return self._o(out)

    def s_AnnAssign(self, s, st):
        if s.value is None:
            return self._o([st])
        out = []
        for x, v in self.ev(s.value, st):
            x = x.copy()
            self.assign(s.target, v, x, s)
            out.append(x)
        return self._o(out)

    def s_AugAssign(self, s, st):
        op = _OPS_AST[type(s.op).__name__]
        out = []
        ld = ast.copy_location(_as_load(s.target), s.target)
        for x, cur in self.ev(ld, st):
            for y, v in self.ev(s.value, x):
                y = y.copy()
                if op == "+" and cur[0] == "new" and cur[2] == "list" and self.seq_items(cur, y) is not None and self.seq_items(v, y) is not None:
                    # in place: other names of the list see the new items too
                    y.heap[("content", cur)] = ("tuple", tuple(self.seq_items(cur, y) + self.seq_items(v, y)))
                    self.assign(s.target, cur, y, s, aug=(op, v))
                    out.append(y)
                    continue
                new = self.binop(op, cur, v, y) if op == "+" and cur[0] in ("clist", "list") else self.binop(op, cur, v)
                self.assign(s.target, new, y, s, aug=(op, v))
                out.append(y)
        return self._o(out)

    def assign(self, target, v, st, node, aug=None):
        """In-place update of st."""
        if isinstance(target, ast.Name):
            n = target.id
            f = st.env
            if ("nonlocal", n) in f:
                for g in reversed(st.frames[:-1]):
                    if n in g:
                        g[n] = v
                        return
            f[n] = v
            # facts about a previous anonymous value of this name
            ph = ("phi", len(st.frames) - 1, n)
            if v != ph:
                st.facts = {a: b for a, b in st.facts.items() if not contains(a, ph)}
            self.emit("bind", node, st, name=n, value=v, extra=aug)
        elif isinstance(target, (ast.Tuple, ast.List)):
            items = self.seq_items(v, st)
            star = any(isinstance(t, ast.Starred) for t in target.elts)
            for k, t in enumerate(target.elts):
                if isinstance(t, ast.Starred):
                    self.assign(t.value, ("star", v), st, node)
                elif items is not None and len(items) == len(target.elts) and not star:
                    self.assign(t, items[k], st, node)
                else:
                    self.assign(t, self.load(st, mk_index(v, C(k))), st, node)
        elif isinstance(target, ast.Attribute):
            for x, b in self.ev(target.value, st, single=True):
                self.store(st, A(b, target.attr), v, node, aug)
        elif isinstance(target, ast.Subscript):
            for x, b in self.ev(target.value, st, single=True):
                for _, i in self.ev(target.slice, st, single=True):
                    loc = self.subscript_loc(b, i, st)
                    self.store(st, loc, v, node, aug)
        elif isinstance(target, ast.Starred):
            self.assign(target.value, v, st, node)

    def subscript_loc(self, b, i, st):
        return mk_index(b, i)

    def s_Delete(self, s, st):
        st = st.copy()
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                for _, b in self.ev(t.value, st, single=True):
                    for _, i in self.ev(t.slice, st, single=True):
                        loc = self.subscript_loc(b, i, st)
                        self.emit("del", s, st, loc=loc)
                        self.kill(st, loc)
                        st.heap[loc] = ("deleted",)
                        if is_strc(i):
                            st.facts[("cmp", "in", i, b)] = False
            elif isinstance(t, ast.Attribute):
                for _, b in self.ev(t.value, st, single=True):
                    loc = A(b, t.attr)
                    self.emit("del", s, st, loc=loc)
                    self.kill(st, loc)
                    st.heap[loc] = ("deleted",)
        return self._o([st])

    # ================================================================= expressions
    def branch(self, e, st):
        """Evaluate a test expression with short-circuit -> (true_states, false_states)."""
        if isinstance(e, ast.BoolOp):
            live = [st]
            done = []
            isand = isinstance(e.op, ast.And)
            for v in e.values:
                nxt = []
                for s in live:
                    t, f = self.branch(v, s)
                    if isand:
                        nxt += t
                        done += f
                    else:
                        nxt += f
                        done += t
                live = nxt
            return (live, done) if isand else (done, live)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t, f = self.branch(e.operand, st)
            return f, t
        if isinstance(e, ast.IfExp):
            T, F = [], []
            t, f = self.branch(e.test, st)
            for s in t:
                a, b = self.branch(e.body, s)
                T += a
                F += b
            for s in f:
                a, b = self.branch(e.orelse, s)
                T += a
                F += b
            return T, F
        T, F = [], []
        for x, v in self.ev(e, st):
            a, b = self.split(v, x)
            T += a
            F += b
        return T, F

    def ev(self, e, st, single=False):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            cur = [st]
            for ch in ast.iter_child_nodes(e):
                if isinstance(ch, ast.expr):
                    cur = [x for c in cur for x, _ in self.ev(ch, c)]
            r = [(c, ("unk", self.site(e))) for c in cur]
        else:
            r = m(e, st)
        if single:
            # used where the state is updated in place: keep the first value
            return [(st, r[0][1])] if r else [(st, ("unk", self.site(e)))]
        return r

    def ev_seq(self, nodes, st):
        cur = [(st, ())]
        for n in nodes:
            nxt = []
            for s, vs in cur:
                if isinstance(n, ast.Starred):
                    for x, v in self.ev(n.value, s):
                        items = self.seq_items(v, x)
                        nxt.append((x, vs + (tuple(items) if items is not None else (("star", v),))))
                else:
                    for x, v in self.ev(n, s):
                        nxt.append((x, vs + (v,)))
            cur = nxt
        return cur

    def e_Constant(self, e, st):
        return [(st, C(e.value))]

    def e_Name(self, e, st):
        return [(st, self.name_value(e.id, st))]

    def name_value(self, n, st):
        f = st.frames[-1]
        d = len(st.frames) - 1
        hops = 0
        while True:
            if n in f:
                return f[n]
            par = f.get("@parent")
            if par is None or hops > 8:
                break
            f = self.caps[par[1]] if isinstance(par, tuple) else st.frames[par]
            hops += 1
        return self.global_value(n)

    def global_value(self, n):
        r = self.p.resolve(self.fn.module, n)
        if r is None:
            return ("g", n)
        return self.resolved_term(r)

    def resolved_term(self, r):
        if r is None:
            return ("unk", "import")
        if r[0] == "fn":
            return ("fn", r[1].qual)
        if r[0] == "cls":
            return ("cls", r[1].qual)
        if r[0] == "g":
            return ("g", r[1])
        if r[0] == "const":
            try:
                return self.const_term(self.p.const(r[2], r[1]))
            except (ValueError, TypeError, KeyError, IndexError):
                nm = next((k for k, v in r[2].assigns.items() if v is r[1]), "?")
                return ("g", f"{r[2].name}.{nm}")
        return ("unk", "g")

    def const_term(self, v):
        if isinstance(v, tuple) and len(v) == 2 and v[0] in ("fn", "cls"):
            return v
        if isinstance(v, tuple) and len(v) == 2 and v[0] == "type":
            return ("g", v[1])
        if isinstance(v, (list, tuple)):
            return ("list" if isinstance(v, list) else "tuple", tuple(self.const_term(x) for x in v))
        if isinstance(v, (set, frozenset)):
            return ("set", tuple(self.const_term(x) for x in sorted(v, key=repr)))
        if isinstance(v, dict):
            return ("cdict", tuple((self.const_term(k), self.const_term(x)) for k, x in v.items()))
        return C(v)

    def e_NamedExpr(self, e, st):
        out = []
        for x, v in self.ev(e.value, st):
            x = x.copy()
            self.assign(e.target, v, x, e)
            out.append((x, v))
        return out

    def e_Attribute(self, e, st):
        out = []
        for x, b in self.ev(e.value, st):
            out += self.attr(b, e.attr, x, e)
        return out

    def attr(self, b, name, st, node):
        if b[0] == "g":
            full = f"{b[1]}.{name}"
            if b[1] in self.p.modules:
                return [(st, self.resolved_term(self.p.resolve_dotted(b[1], name)))]
            return [(st, ("g", full))]
        if b[0] == "cls":
            c = self.p.classes.get(b[1])
            v = self.rule.value(A(b, name), st, self) or st.heap.get(A(b, name))
            if v is not None and v[0] != "phi":
                return [(st, v)]
            if c:
                m = self.p.method(c, name)
                if m:
                    return [(st, ("fn", m.qual) if not m.is_class else ("bound", b, m.qual))]
                cc = self.p.cls_const(c, name)
                if cc:
                    hint = HINTS.get((c.qual, name))
                    if hint is None:
                        try:
                            return [(st, self.const_term(self.p.const(cc[1], cc[0])))]
                        except (ValueError, TypeError, KeyError):
                            pass
                nested = self.p.classes.get(f"{c.qual}.{name}")
                if nested:
                    return [(st, ("cls", nested.qual))]
            return [(st, self.load(st, A(b, name)))]
        loc = A(b, name)
        v = self.load(st, loc)
        if v != loc:
            return [(st, v)]
        if name == "names" and b[0] == "a" and b[2] == "dtype" and b[1][0] == "call" and b[1][1][0] == "g" and b[1][1][1] in (
                "numpy.zeros", "numpy.empty", "numpy.ones"):
            # field names of an array built from a known list of fields
            c = b[1]
            d = dict(c[3]).get("dtype", c[2][1] if len(c[2]) > 1 else None)
            items = self.seq_items(d, st) if d is not None else None
            if items is not None and all(x[0] in ("tuple", "list") and x[1] and is_c(x[1][0]) for x in items):
                return [(st, ("tuple", tuple(x[1][0] for x in items)))]
        for q in sorted(self.type_of(b, st) or ()):
            c = self.p.classes.get(q)
            if c is None:
                continue
            m = self.p.method(c, name)
            if m is not None:
                if m.is_property:
                    if self.can_inline(m):
                        return self.call_fi(m, node, st, [b], {}, bound=b)
                    return [(st, loc)]
                return [(st, ("fn", m.qual) if m.is_static else ("bound", b, m.qual))]
            cc = self.p.cls_const(c, name)
            if cc and name not in [a for k in self.p.mro(c) for a in k.attr_types]:
                try:
                    if not self.is_instance_attr(c, name):
                        return [(st, self.const_term(self.p.const(cc[1], cc[0])))]
                except (ValueError, TypeError, KeyError):
                    pass
        return [(st, loc)]

    def is_instance_attr(self, c, name):
        for k in self.p.mro(c):
            for meth in k.methods.values():
                for n in ast.walk(meth.node):
                    if isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Store):
                        return True
        return False

    def e_Subscript(self, e, st):
        out = []
        for x, b in self.ev(e.value, st):
            for y, i in self.ev(e.slice, x):
                out.append((y, self.subscript(b, i, y)))
        return out

    def subscript(self, b, i, st):
        if b[0] in ("tuple", "list", "clist") and is_c(i) and isinstance(i[2], int) and -len(b[1]) <= i[2] < len(b[1]):
            return b[1][i[2]]
        if b[0] == "new" and b[2] == "list" and is_c(i) and isinstance(i[2], int):
            items = self.seq_items(b, st)
            if items is not None and -len(items) <= i[2] < len(items):
                return items[i[2]]
        if b[0] == "cdict":
            for k, v in b[1]:
                if k == i:
                    return v
        # np.where(m)[0], np.nonzero(m)[0] -> flatnonzero
        if b[0] == "call" and b[1] in (("g", "numpy.where"), ("g", "numpy.nonzero")) and len(b[2]) == 1 and i == C(0):
            return ("call", ("g", "numpy.flatnonzero"), b[2], ())
        return self.load(st, mk_index(b, i))

    def e_Slice(self, e, st):
        nodes = [e.lower, e.upper, e.step]
        cur = [(st, ())]
        for n in nodes:
            nxt = []
            for s, vs in cur:
                if n is None:
                    nxt.append((s, vs + (NONE,)))
                else:
                    nxt += [(x, vs + (num_norm(v),)) for x, v in self.ev(n, s)]
            cur = nxt
        return [(s, ("s",) + vs) for s, vs in cur]

    def e_Tuple(self, e, st):
        return [(s, ("tuple", vs)) for s, vs in self.ev_seq(e.elts, st)]

    def e_List(self, e, st):
        out = []
        for s, vs in self.ev_seq(e.elts, st):
            s = s.copy()
            t = ("new", self.asite(e), "list")
            self.fresh(s, t)
            if not any(v[0] == "star" for v in vs):
                s.heap[("content", t)] = ("tuple", vs)
            out.append((s, t))
        return out

    def e_Set(self, e, st):
        out = []
        for s, vs in self.ev_seq(e.elts, st):
            s = s.copy()
            t = ("new", self.asite(e), "set")
            self.fresh(s, t)
            if not any(v[0] == "star" for v in vs):
                s.heap[("content", t)] = ("tuple", vs)
            out.append((s, t))
        return out

    def fresh(self, st, t):
        """A new allocation at a site: drop what was known about the previous object of that site."""
        st.heap = {k: v for k, v in st.heap.items() if not contains(k, t)}
        st.facts = {k: v for k, v in st.facts.items() if not contains(k, t)}

    def e_Dict(self, e, st):
        out = []
        knodes = [k for k in e.keys if k is not None]
        for s, ks in self.ev_seq(knodes, st):
            for x, vs in self.ev_seq(e.values, s):
                x = x.copy()
                t = ("new", self.asite(e), "dict")
                self.fresh(x, t)
                ki = iter(ks)
                for kn, v in zip(e.keys, vs):
                    if kn is None:
                        self.dict_update(x, t, v)
                    else:
                        k = next(ki)
                        if is_c(k):
                            x.heap[("i", t, k)] = v
                        else:
                            x.heap[("partial", t)] = TRUE
                            x.heap[("dynkeys", t)] = ("tuple", (k, v))
                out.append((x, t))
        return out

    def dict_update(self, st, t, src):
        """t.update(src) for tracked dict t."""
        if src[0] == "new" and src[2] == "dict":
            for k, v in list(st.heap.items()):
                if k[0] == "i" and k[1] == src:
                    if v[0] == "deleted":
                        continue
                    st.heap[("i", t, k[2])] = v
            for tag in ("partial", "copyof"):
                if (tag, src) in st.heap:
                    st.heap[(tag, t)] = st.heap[(tag, src)]
        else:
            st.heap[("partial", t)] = TRUE
            if ("copyof", t) not in st.heap and not any(k[0] == "i" and k[1] == t for k in st.heap):
                st.heap[("copyof", t)] = src

    def dict_copy(self, st, src, node):
        st = st.copy()
        t = ("new", self.site(node), "dict")
        if src == t:
            return st, t
        snap = None
        self.fresh(st, t)
        if src[0] == "new" and src[2] == "dict":
            self.dict_update(st, t, src)
        else:
            st.heap[("copyof", t)] = src
            st.heap[("partial", t)] = TRUE
            for k, v in list(st.heap.items()):
                if k[0] == "i" and k[1] == src:
                    st.heap[("i", t, k[2])] = v
            for a, v in list(st.facts.items()):
                if a[0] == "cmp" and a[1] == "in" and a[3] == src:
                    st.facts[("cmp", "in", a[2], t)] = v
        return st, t

    def e_BinOp(self, e, st):
        op = _OPS_AST[type(e.op).__name__]
        out = []
        for x, l in self.ev(e.left, st):
            for y, r in self.ev(e.right, x):
                out.append((y, self.binop(op, l, r, y)))
        return out

    def binop(self, op, l, r, st=None):
        if op in ("+", "-", "*") and is_c(l) and is_c(r):
            try:
                return C({"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b}[op](l[2], r[2]))
            except Exception:
                pass
        if op == "+" and st is not None:
            a, b = self.seq_items(l, st), self.seq_items(r, st)
            if a is not None and b is not None and l[0] != "set":
                return ("list" if "tuple" not in (l[0], r[0]) else "tuple", tuple(a + b))
        if op in ("+", "-"):
            t = ("b", op, l, r)
            n = num_norm(t)
            return n if is_c(n) else t
        return ("b", op, l, r)

    def e_UnaryOp(self, e, st):
        out = []
        for x, v in self.ev(e.operand, st):
            if isinstance(e.op, ast.Not):
                out.append((x, mk_not(truthy(v))))
            elif isinstance(e.op, ast.USub):
                out.append((x, C(-v[2]) if is_c(v) and isinstance(v[2], (int, float)) else ("u", "-", v)))
            elif isinstance(e.op, ast.Invert):
                out.append((x, ("u", "~", v)))
            else:
                out.append((x, v))
        return out

    def e_BoolOp(self, e, st):
        # value position: `a or b`, `a and b`
        isand = isinstance(e.op, ast.And)
        outs = []
        live = [st]
        n = len(e.values)
        pure = all(_pure(v) for v in e.values)
        if pure and _boolish(e):
            vs = []
            s = st
            for s, vs in self.ev_seq(e.values, st)[:1]:
                pass
            return [(s, ("and" if isand else "or", tuple(truthy(v) for v in vs)))]
        for k, vn in enumerate(e.values):
            nxt = []
            for s in live:
                for x, v in self.ev(vn, s):
                    if k == n - 1:
                        outs.append((x, v))
                        continue
                    t, f = self.split(v, x)
                    if isand:
                        nxt += t
                        outs += [(q, v if not is_c(v) else v) for q in f]
                    else:
                        nxt += f
                        outs += [(q, v) for q in t]
            live = nxt
        return outs

    def e_Compare(self, e, st):
        out = []
        for s, vs in self.ev_seq([e.left] + e.comparators, st):
            parts = []
            for k, op in enumerate(e.ops):
                parts.append(self.compare(_CMP[type(op).__name__], vs[k], vs[k + 1], s))
            out.append((s, parts[0] if len(parts) == 1 else ("and", tuple(parts))))
        return out

    def compare(self, op, a, b, st):
        if op in ("in", "not in"):
            items = self.seq_items(b, st)
            if items is not None and len(items) <= 30:
                eqs = [mk_cmp("==", a, i) for i in items]
                if TRUE in eqs:
                    r = TRUE
                else:
                    eqs = [q for q in eqs if q != FALSE]
                    r = ("or", tuple(eqs)) if eqs else FALSE
                return mk_not(r) if op == "not in" else r
            if b[0] == "cdict":
                eqs = [mk_cmp("==", a, k) for k, _ in b[1]]
                r = TRUE if TRUE in eqs else (("or", tuple(q for q in eqs if q != FALSE)) if any(q != FALSE for q in eqs) else FALSE)
                return mk_not(r) if op == "not in" else r
            if b[0] == "call" and b[1][0] == "method" and b[1][1] == "keys":
                b = b[2][0]
        if op in ("==", "!=", "is", "is not"):
            # x.size == 0 etc.
            pass
        return mk_cmp(op, a, b)

    def e_IfExp(self, e, st):
        t, f = self.branch(e.test, st)
        out = []
        for s in t:
            out += self.ev(e.body, s)
        for s in f:
            out += self.ev(e.orelse, s)
        return out

    def e_JoinedStr(self, e, st):
        parts = []
        cur = [(st, ())]
        for v in e.values:
            nxt = []
            for s, vs in cur:
                if isinstance(v, ast.FormattedValue):
                    for x, t in self.ev(v.value, s):
                        nxt.append((x, vs + (t,)))
                else:
                    nxt.append((s, vs + (C(v.value),)))
            cur = nxt
        return [(s, ("fstr", vs)) for s, vs in cur]

    def e_Lambda(self, e, st):
        cid = ("closure", ("lambda", self.site(e)), len(st.frames) - 1)
        if cid[1] not in self.closures:
            fn = ast.FunctionDef(name="<lambda>", args=e.args, body=[ast.copy_location(ast.Return(value=e.body), e)], decorator_list=[], returns=None)
            ast.copy_location(fn, e)
            ast.fix_missing_locations(fn)
            from .loader import FuncInfo
            self.closures[cid[1]] = FuncInfo(f"{self.fn.qual}.<lambda>", fn, self.fn.module, self.fn.cls, self.fn)
        return [(st, cid)]

    def e_Starred(self, e, st):
        return [(x, ("star", v)) for x, v in self.ev(e.value, st)]

    def e_Await(self, e, st):
        return self.ev(e.value, st)

    # comprehensions
    def e_ListComp(self, e, st):
        return self.comp(e, st, "list", [e.elt])

    def e_SetComp(self, e, st):
        return self.comp(e, st, "set", [e.elt])

    def e_GeneratorExp(self, e, st):
        return self.comp(e, st, "gen", [e.elt])

    def e_DictComp(self, e, st):
        return self.comp(e, st, "dict", [e.key, e.value])

    def comp(self, e, st, kind, elts):
        g0 = e.generators[0]
        out = []
        for x, it in self.ev(g0.iter, st):
            x = x.copy()
            saved = dict(x.env)
            items = self.seq_items(it, x) if len(e.generators) == 1 else None
            if items is not None and len(items) <= 24 and kind == "dict" and all(is_c(i) or i[0] in ("tuple", "list") and i[1] and is_c(i[1][0]) for i in items):
                cur = [(x, ())]
                for i in items:
                    nxt = []
                    for s, acc in cur:
                        s = s.copy()
                        self.assign(g0.target, i, s, e)
                        ts = [s]
                        for cnd in g0.ifs:
                            T = []
                            for q in ts:
                                t, f = self.branch(cnd, q)
                                T += t
                                nxt += [(z, acc) for z in f]
                            ts = T
                        for q in ts:
                            for z, vs in self.ev_seq(elts, q):
                                nxt.append((z, acc + (tuple(vs),)))
                    cur = nxt
                for s, acc in cur:
                    s = s.copy()
                    self._restore(s, saved)
                    t = ("new", self.asite(e), "dict")
                    self.fresh(s, t)
                    for k, v in acc:
                        if is_c(k):
                            s.heap[("i", t, k)] = v
                        else:
                            s.heap[("partial", t)] = TRUE
                    out.append((s, t))
                continue
            if items is not None and len(items) <= 24 and kind in ("list", "set", "gen"):
                r0 = self.__dict__.get("round", ())
                cur = [(x, ())]
                for i in items:
                    nxt = []
                    for s, acc in cur:
                        s = s.copy()
                        self.assign(g0.target, i, s, e)
                        ts = [s]
                        for cnd in g0.ifs:
                            T = []
                            for q in ts:
                                t, f = self.branch(cnd, q)
                                T += t
                                nxt += [(z, acc) for z in f]
                            ts = T
                        for q in ts:
                            self.round = r0 + (len(acc),)
                            for z, v in self.ev(elts[0], q):
                                nxt.append((z, acc + (v,)))
                            self.round = r0
                    cur = nxt
                for s, acc in cur:
                    s = s.copy()
                    self._restore(s, saved)
                    out.append((s, ("clist" if kind != "set" else "set", acc)))
                continue
            elem = self.elem_of(it, e, x)
            self.emit("loop", e, x, value=elem, extra=it)
            x0 = x.copy()
            self.forget_elem(x, elem, e)
            self.emit("iter", e, x, value=elem, extra=it)
            self.assign(g0.target, elem, x, e)
            cur = [(x, ())]
            for cnd in g0.ifs:
                cur = [(z, cs + (truthy(v),)) for s, cs in cur for z, v in self.ev(cnd, s)]
            for g in e.generators[1:]:
                nxt = []
                for s, cs in cur:
                    for z, it2 in self.ev(g.iter, s):
                        z = z.copy()
                        self.assign(g.target, self.elem_of(it2, g.iter, z), z, e)
                        zz = [(z, cs)]
                        for cnd in g.ifs:
                            zz = [(y, c2 + (truthy(v),)) for s2, c2 in zz for y, v in self.ev(cnd, s2)]
                        nxt += zz
                cur = nxt
            for s, cs in cur:
                # assume the filter while evaluating the element
                ss = [s]
                for c in cs:
                    ss = [t for q in ss for t in self.split(c, q)[0]]
                res = []
                for q in ss[:1] or []:
                    for z, vs in self.ev_seq(elts, q):
                        res.append((z, vs))
                if not res:
                    res = [(s, ())]
                z, vs = res[0]
                z = z.copy()
                facts = dict(s.facts)
                z.facts = {k: v for k, v in z.facts.items() if k in s.facts and s.facts[k] == v}
                self._restore(z, saved)
                # events inside may or may not have happened; rule state: keep both
                t = ("comp", kind, vs if kind == "dict" else (vs[0] if vs else NONE), it, cs)
                self.emit("iterend", e, z, value=elem, extra=it, name="next")
                self.emit("loopend", e, z, value=elem, extra=it)
                out.append((z, t))
                if z.rs != x0.rs:
                    y = x0.copy()
                    self._restore(y, saved)
                    out.append((y, t))
        return out

    @staticmethod
    def _restore(st, saved):
        fr = list(st.frames)
        fr[-1] = dict(saved)
        st.frames = tuple(fr)

    # ----------------------------------------------------------------- calls
    def e_Call(self, e, st):
        self.calls_seen += 1
        f = e.func
        out = []
        # evaluate callee
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
                cls = self.fn.cls
                me = self.name_value(self.fn.params[0] if self.fn.params else "self", st)
                m = None
                if cls is not None:
                    for k in self.p.mro(cls)[1:]:
                        if f.attr in k.methods:
                            m = k.methods[f.attr]
                            break
                cal = [(st, ("bound", me, m.qual) if m else ("superm", me, f.attr))]
                bases = [(s, me, c) for s, c in cal]
            else:
                bases = []
                for s, b in self.ev(f.value, st):
                    for s2, c in self.attr(b, f.attr, s, f):
                        bases.append((s2, b, c))
        else:
            bases = [(s, None, c) for s, c in self.ev(f, st)]
        for s, base, cal in bases:
            for s2, args in self.ev_seq(e.args, s):
                kwn = [k for k in e.keywords]
                for s3, kvs in self.ev_seq([k.value for k in kwn], s2):
                    kw = {}
                    for k, v in zip(kwn, kvs):
                        if k.arg is None:
                            if v[0] == "new" and v[2] == "dict" and ("partial", v) not in s3.heap:
                                for hk, hv in s3.heap.items():
                                    if hk[0] == "i" and hk[1] == v and hv[0] != "deleted":
                                        kw[hk[2][2]] = hv
                            else:
                                kw["**"] = v
                        else:
                            kw[k.arg] = v
                    out += self.call(e, s3, base, f.attr if isinstance(f, ast.Attribute) else None, cal, list(args), kw)
        if len(out) > 1:
            out = self.merge_rets(out)
        return out

    def can_inline(self, fi):
        if len(self.func_stack) >= MAXDEPTH:
            return False
        if sum(1 for f in self.func_stack if f.node is fi.node) >= 1:
            return False
        for n in ast.walk(fi.node):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return False
        return bool(self.rule.inline(fi, self))

    def call(self, e, st, base, mname, cal, args, kw):
        # in-repo function or method
        fi, bound = None, None
        if cal[0] == "fn":
            fi = self.p.funcs.get(cal[1])
            if fi is not None and fi.cls is not None and not fi.is_static and not fi.is_class and base is not None and base[0] != "cls" and base[0] != "g":
                bound = base
        elif cal[0] == "bound":
            fi = self.p.funcs.get(cal[2])
            bound = cal[1]
        elif cal[0] == "closure":
            fi = self.closures.get(cal[1])
        if cal[0] == "cls":
            return self.construct(e, st, cal, args, kw)
        if cal[0] == "call" and cal[1] == ("g", "functools.partial"):
            return self.call(e, st, None, None, cal[2][0], list(cal[2][1:]) + args, {**dict(cal[3]), **kw})
        if fi is not None:
            cargs = ([bound] if bound is not None and not fi.is_static else []) + args
            # subclass overrides of an abstract receiver are handled by entering each concrete class separately
            if self.can_inline(fi) and self.star_ok(fi, cargs, kw):
                ev = self.emit("callin", e, st, callee=fi.qual, base=base, name=fi.name, args=args, kw=kw)
                if ev.extra == "skip":
                    return [(st, ev.value if ev.value is not None else ("call", cal, tuple(args), tuple(sorted(kw.items()))))]
                return self.call_fi(fi, e, st, cargs, kw, bound=bound, closure=cal if cal[0] == "closure" else None)
            return self.opaque(e, st, base, mname or fi.name, fi.qual, cal, args, kw)
        return self.builtin_or_opaque(e, st, base, mname, cal, args, kw)

    @staticmethod
    def star_ok(fi, args, kw):
        """Can the call be bound?  A trailing *x / **y is passed whole to the callee's own *args / **kwargs."""
        stars = [i for i, x in enumerate(args) if x[0] == "star"]
        if not stars and "**" not in kw:
            return True
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        npos = stars[0] if stars else len(args)
        if stars and (stars != [len(args) - 1] or not a.vararg or npos < len(names)):
            return False
        if "**" in kw and (not a.kwarg or set(names[npos:] + [x.arg for x in a.kwonlyargs]) - set(kw)):
            return False
        return True

    def call_fi(self, fi, node, st, args, kw, bound=None, closure=None):
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        vals = list(args)
        for n in names:
            if vals:
                env[n] = vals.pop(0)
        rest = dict(kw)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n in rest and n not in env:
                env[n] = rest.pop(n)
        # defaults
        dn = names[len(names) - len(a.defaults):] if a.defaults else []
        self.func_stack.append(fi)
        try:
            for n, d in zip(dn, a.defaults):
                if n not in env:
                    env[n] = self.default_term(d)
            for x, d in zip(a.kwonlyargs, a.kw_defaults):
                if x.arg not in env and d is not None:
                    env[x.arg] = self.default_term(d)
        finally:
            self.func_stack.pop()
        for n in names + [x.arg for x in a.kwonlyargs]:
            env.setdefault(n, ("unk", f"arg {n}"))
        st = st.copy()
        if a.vararg:
            env[a.vararg.arg] = vals[0][1] if len(vals) == 1 and vals[0][0] == "star" else ("tuple", tuple(vals))
        if a.kwarg and set(rest) == {"**"}:
            env[a.kwarg.arg] = rest["**"]
        elif a.kwarg:
            t = ("new", ("kw", self.site(node)), "dict")
            self.fresh(st, t)
            for k, v in rest.items():
                st.heap[("i", t, C(k))] = v
            env[a.kwarg.arg] = t
        if closure is not None:
            env["@parent"] = closure[2]
        elif fi.parent is not None:
            for k in range(len(st.frames) - 1, -1, -1):
                if st.frames[k].get("@fn") == ("c", "str", fi.parent.qual):
                    env["@parent"] = k
                    break
        for x in a.posonlyargs + a.args:
            if x.annotation is not None and x.arg in env and env[x.arg][0] not in ("c", "phi", "unk"):
                k = self.p.cls_of_expr(fi.module, x.annotation)
                if k and env[x.arg] not in self.typetab and not self.type_of(env[x.arg], st):
                    self.typetab[env[x.arg]] = {k.qual}
        depth = len(st.frames)
        # types of receiver for entry by bound term
        if bound is not None and fi.cls is not None and not self.type_of(bound, st) and bound[0] != "cls":
            self.typetab.setdefault(bound, set()).add(fi.cls.qual)
        st.frames = st.frames + (env,)
        self.func_stack.append(fi)
        self.funcs_seen.add(fi.qual)
        exc_saved = st.exc
        try:
            o = self.block(fi.node.body, [st])
        finally:
            self.func_stack.pop()
        res = []
        o_frames = {}
        for s, v in list(o["return"]) + [(s, NONE) for s in o["next"]]:
            s = s.copy()
            o_frames[id(s)] = s.frames[depth] if len(s.frames) > depth else {}
            s.frames = s.frames[:depth]
            if v[0] == "closure" and v[2] == depth:      # keeps the variables of the frame that ends here
                env = {k: x for k, x in o_frames[id(s)].items() if not (x[0] == "closure" if isinstance(x, tuple) else False)}
                if env not in self.caps:
                    self.caps.append(env)
                v = ("closure", v[1], ("cap", self.caps.index(env)))
            if v[0] == "phi" and v[1] == depth:
                v = ("phi", "ret", fi.qual, v[2])
            res.append((s, v))
        return self.merge_rets(res)

    def default_term(self, d):
        if isinstance(d, ast.Constant):
            return C(d.value)
        if isinstance(d, ast.Dict) and not d.keys:
            return ("cdict", ())
        if isinstance(d, ast.List) and not d.elts:
            return ("list", ())
        try:
            return self.const_term(self.p.const(self.fn.module, d))
        except Exception:
            return ("default", ast.unparse(d))

    def construct(self, e, st, cal, args, kw):
        c = self.p.classes.get(cal[1])
        init = self.p.method(c, "__init__") if c else None
        t = ("new", self.site(e), "obj:" + cal[1])
        ev = self.emit("call", e, st, callee=cal[1], base=None, name=c.name if c else None, args=args, kw=kw)
        isexc = "Exception" in self.exc_bases(cal[1]) and c is not None and any(
            "Exception" in b or "Error" in b for b in self.p.base_names(c))
        if isexc:
            return [(st, ("call", cal, tuple(args), tuple(sorted(kw.items()))))]
        if self.rule.may_raise(ev, st, self):
            self.raise_(st, EXC_ANY)
        st = st.copy()
        self.fresh(st, t)
        v = self.rule.call_value(ev, st, self)
        if v is not None:
            return [(st, v)]
        if init is not None and self.star_ok(init, [t] + args, kw) and self.can_inline(init):
            return [(s, t) for s, _ in self.call_fi(init, e, st, [t] + args, kw, bound=t)]
        st.heap[("ctor", t)] = ("tuple", tuple(args) + tuple(("kwarg", k, v) for k, v in sorted(kw.items())))
        return [(st, t)]

    def builtin_or_opaque(self, e, st, base, mname, cal, args, kw):
        if cal[0] == "g":
            n = cal[1]
            if n == "len" and len(args) == 1:
                items = self.seq_items(args[0], st)
                if items is not None:
                    return [(st, C(len(items)))]
                x = args[0]
                if is_c(x) and isinstance(x[2], (str, bytes, tuple)):
                    return [(st, C(len(x[2])))]
                if x[0] == "new" and x[2] == "dict" and ("partial", x) not in st.heap:
                    return [(st, C(sum(1 for k, v in st.heap.items() if k[0] == "i" and k[1] == x and v[0] != "deleted")))]
                return [(st, ("len", x))]
            if n in ("numpy.size",) and len(args) == 1:
                return [(st, ("len", args[0]))]
            if n == "numpy.count_nonzero" and len(args) == 1:
                return [(st, ("call", ("g", "sum"), (args[0],), ()))]
            if n == "numpy.sum" and len(args) == 1 and not kw:
                return [(st, ("call", ("g", "sum"), (args[0],), ()))]
            if n in ("any", "numpy.any") and len(args) == 1:
                return [(st, self.anyall("any", args[0], st))]
            if n in ("all", "numpy.all") and len(args) == 1:
                return [(st, self.anyall("all", args[0], st))]
            if n == "bool" and len(args) == 1:
                return [(st, truthy(args[0]))]
            if n == "getattr" and len(args) >= 2 and is_strc(args[1]):
                r = self.attr(args[0], args[1][2], st, e)
                if len(args) == 3 and r[0][1] == A(args[0], args[1][2]):
                    return [(s, ("getd", v, args[2])) if args[2] != NONE else (s, v) for s, v in r]
                return r
            if n == "dict":
                if len(args) == 1:
                    s, t = self.dict_copy(st, args[0], e)
                    for k, v in kw.items():
                        if k == "**":
                            self.dict_update(s, t, v)
                        else:
                            s.heap[("i", t, C(k))] = v
                    return [(s, t)]
                if not args:
                    s = st.copy()
                    t = ("new", self.asite(e), "dict")
                    self.fresh(s, t)
                    for k, v in kw.items():
                        if k == "**":
                            self.dict_update(s, t, v)
                        else:
                            s.heap[("i", t, C(k))] = v
                    return [(s, t)]
            if n == "itertools.chain.from_iterable" and len(args) == 1:
                items = self.seq_items(args[0], st)
                subs = [self.seq_items(i, st) for i in items] if items is not None else [None]
                if all(q is not None for q in subs):
                    return [(st, ("clist", tuple(i for q in subs for i in q)))]
            if n == "dict.fromkeys" and len(args) == 1:
                items = self.seq_items(args[0], st)
                if items is not None:
                    return [(st, ("cdict", tuple((k, NONE) for k in dict.fromkeys(items))))]
            if n in ("copy.copy", "copy.deepcopy") and len(args) == 1:
                self.emit("call", e, st, callee=n, base=None, name=n.split(".")[-1], args=args, kw=kw)
                s, t = self.dict_copy(st, args[0], e)
                if n == "copy.deepcopy" and t[0] == "new":
                    s.heap[("deepof", t)] = TRUE
                return [(s, t)]
            if n in ("list", "set", "tuple") and len(args) <= 1:
                if not args:
                    s = st.copy()
                    t = ("new", self.site(e), n)
                    self.fresh(s, t)
                    s.heap[("content", t)] = ("tuple", ())
                    return [(s, t)]
                items = self.seq_items(args[0], st)
                if items is not None:
                    return [(st, ("list" if n == "list" else n, tuple(items)))]
                if n in ("list", "tuple"):
                    return [(st, args[0])] if args[0][0] in ("comp", "elem", "items") else [(st, ("call", cal, tuple(args), ()))]
            if n == "isinstance" and len(args) == 2:
                ts = args[1]
                if ts[0] == "tuple" or ts[0] == "new":
                    its = self.seq_items(ts, st)
                    if its is not None:
                        return [(st, ("or", tuple(("t", ("call", ("g", "isinstance"), (args[0], i), ())) for i in its)))]
                return [(st, ("call", ("g", "isinstance"), tuple(args), ()))]
            if n in ("numpy.where", "numpy.nonzero", "numpy.flatnonzero") and len(args) == 1:
                return [(st, ("call", cal, tuple(args), ()))]
            if n == "setattr" and len(args) == 3 and is_strc(args[1]):
                s = st.copy()
                self.store(s, A(args[0], args[1][2]), args[2], e)
                return [(s, NONE)]
            if n in BUILTIN_PURE or (n.startswith("numpy.") and n not in NUMPY_IMPURE and not n.startswith("numpy.random")):
                ev = self.emit("call", e, st, callee=n, base=None, name=n.split(".")[-1], args=args, kw=kw)
                v = self.rule.call_value(ev, st, self)
                if self.rule.may_raise(ev, st, self):
                    self.raise_(st, EXC_ANY)
                return [(st, v if v is not None else ("call", cal, tuple(args), tuple(sorted(kw.items()))))]
        # methods of builtin containers
        if base is not None and base[0] not in ("g", "cls"):
            r = self.container_method(e, st, base, mname, args, kw)
            if r is not None:
                return r
        callee = cal[1] if cal[0] == "g" else None
        return self.opaque(e, st, base if cal[0] != "g" else None, mname, callee, cal, args, kw)

    def anyall(self, k, x, st):
        items = self.seq_items(x, st)
        if items is not None:
            its = tuple(truthy(i) for i in items)
            if k == "any":
                return ("or", its) if its else FALSE
            return ("and", its) if its else TRUE
        return (k, x)

    @staticmethod
    def list_op(items, m, args, kw):
        """(items after, value) of an in-place operation on a known list; (None, ?) when it cannot be told."""
        unk = ("phi", "h", "content")
        if m == "clear":
            return [], NONE
        if m == "reverse":
            return items[::-1], NONE
        if m == "remove" and len(args) == 1 and is_c(args[0]) and all(is_c(i) for i in items) and args[0] in items:
            items.remove(args[0])
            return items, NONE
        if m == "insert" and len(args) == 2 and is_c(args[0]) and isinstance(args[0][2], int):
            items.insert(args[0][2], args[1])
            return items, NONE
        if m == "pop" and (not args or is_c(args[0]) and isinstance(args[0][2], int)) and items:
            i = args[0][2] if args else -1
            if -len(items) <= i < len(items):
                v = items.pop(i)
                return items, v
        if m == "sort" and not args and not kw and all(is_c(i) and isinstance(i[2], str) for i in items):
            return sorted(items, key=lambda i: i[2]), NONE
        return None, unk if m == "pop" else NONE

    def container_method(self, e, st, base, m, args, kw):
        f = getattr(e, "func", None)
        if base[0] in ("clist", "list") and m in ("append", "extend") and len(args) == 1 and isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) \
                and st.env.get(f.value.id) == base:
            more = [args[0]] if m == "append" else self.seq_items(args[0], st)
            if more is not None and len(base[1]) < 24:
                self.emit("mutate", e, st, base=base, name=m, args=args, kw=kw)
                st = st.copy()
                st.env[f.value.id] = (base[0], tuple(base[1]) + tuple(more))
                return [(st, NONE)]
        if base[0] in ("clist", "list") and m in ("remove", "insert", "pop", "reverse", "sort", "clear") and isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) \
                and st.env.get(f.value.id) == base:
            items, val = self.list_op(list(base[1]), m, args, kw)
            self.emit("mutate", e, st, base=base, name=m, args=args, kw=kw)
            st = st.copy()
            st.env[f.value.id] = (base[0], tuple(items)) if items is not None else ("phi", "h", "content")
            return [(st, val)]
        if m == "get" and 1 <= len(args) <= 2 and not (is_c(args[0]) and args[0][1] == "bool"):
            k = args[0]
            d = args[1] if len(args) == 2 else kw.get("default", NONE)
            if base[0] == "cdict":
                eqs = [(mk_cmp("==", k, kk), vv) for kk, vv in base[1]]
                for c, vv in eqs:
                    if c == TRUE:
                        return [(st, vv)]
                if all(c == FALSE for c, _ in eqs):
                    return [(st, d)]
                out, live = [], [st]
                for c, vv in eqs:
                    if c == FALSE:
                        continue
                    nxt = []
                    for s in live:
                        t, f = self.split(c, s)
                        out += [(q, vv) for q in t]
                        nxt += f
                    live = nxt
                return out + [(s, d) for s in live]
            r = self.lookup(("cmp", "in", k, base), st)
            loc = mk_index(base, k)
            if r is False:
                return [(st, d)]
            if r is True:
                return [(st, self.load(st, loc))]
            v = self.load(st, loc)
            if v != loc:
                return [(st, v)]
            if is_c(d) and not d[2] or d[0] in ("cdict", "list", "tuple") and not d[1] or (
                    d[0] == "new" and self.seq_items(d, st) == []):
                return [(st, v)]
            return [(st, ("getd", loc, d))]
        if m in ("keys",) and not args:
            return [(st, base)]
        if m == "items" and not args:
            items = self.seq_items(base, st) if base[0] == "new" else None
            if base[0] == "cdict":
                return [(st, ("tuple", tuple(("tuple", kv) for kv in base[1])))]
            if items is not None:
                return [(st, ("tuple", tuple(("tuple", (k, st.heap[("i", base, k)])) for k in items)))]
            return [(st, ("items", base))]
        if m == "values" and not args:
            items = self.seq_items(base, st) if base[0] == "new" else None
            if base[0] == "cdict":
                return [(st, ("tuple", tuple(v for _, v in base[1])))]
            if items is not None:
                return [(st, ("tuple", tuple(st.heap[("i", base, k)] for k in items)))]
            return [(st, ("values", base))]
        if m == "copy" and not args:
            if base[0] == "new" and base[2] == "dict" or (self.rule.types(base, st, self) == {"dict"}):
                s, t = self.dict_copy(st, base, e)
                return [(s, t)]
            return None
        if m in ("any", "all") and not args:
            return [(st, self.anyall(m, base, st))]
        if m in MUTATORS and not self.type_of(base, st):
            st = st.copy()
            ev = self.emit("call", e, st, callee=None, base=base, name=m, args=args, kw=kw)
            self.emit("mutate", e, st, base=base, name=m, args=args, kw=kw)
            if self.rule.may_raise(ev, st, self):
                self.raise_(st, EXC_ANY)
            cont = st.heap.get(("content", base))
            content = list(cont[1]) if cont is not None and cont[0] == "tuple" else None
            # forget
            st.facts = {a: v for a, v in st.facts.items() if not contains(a, base) or a[0] == "cmp" and a[1] == "==" and a[3] == NONE}
            val = ("call", ("method", m), (base,) + tuple(args), (), self.site(e))
            if base[0] == "new" and base[2] == "dict":
                if m == "pop" and args:
                    val = self.load(st, ("i", base, args[0]))
                    if is_c(args[0]):
                        st.heap[("i", base, args[0])] = ("deleted",)
                    else:
                        st.heap[("partial", base)] = TRUE
                elif m == "update":
                    for a in args:
                        self.dict_update(st, base, a)
                    for k, v in kw.items():
                        if k != "**":
                            st.heap[("i", base, C(k))] = v
                    val = NONE
                elif m == "clear":
                    self.fresh(st, base)
                    val = NONE
                elif m == "setdefault" and args:
                    r = self.known_in(args[0], base, st)
                    if r is True:
                        val = self.load(st, ("i", base, args[0]))
                    elif r is False and is_c(args[0]):
                        val = args[1] if len(args) > 1 else NONE
                        st.heap[("i", base, args[0])] = val
                else:
                    st.heap[("partial", base)] = TRUE
            elif base[0] == "new":
                if content is not None and m == "append" and len(args) == 1 and len(content) < 24:
                    st.heap[("content", base)] = ("tuple", tuple(content) + (args[0],))
                    val = NONE
                elif content is not None and m in ("add",) and len(content) < 24:
                    st.heap[("content", base)] = ("tuple", tuple(content) + ((args[0],) if args[0] not in content else ()))
                    val = NONE
                elif content is not None and m in ("extend", "update") and len(args) == 1 and self.seq_items(args[0], st) is not None:
                    st.heap[("content", base)] = ("tuple", tuple(content) + tuple(self.seq_items(args[0], st)))
                    val = NONE
                elif content is not None and m == "clear":
                    st.heap[("content", base)] = ("tuple", ())
                elif content is not None and base[2] == "list" and m in ("remove", "insert", "pop", "reverse", "sort") and self.list_op(list(content), m, args, kw)[0] is not None:
                    items, val = self.list_op(list(content), m, args, kw)
                    st.heap[("content", base)] = ("tuple", tuple(items))
                else:
                    st.heap.pop(("content", base), None)
                    st.heap[("content", base)] = ("phi", "h", "content")
                    if m in ("append", "add", "insert"):
                        st.facts[("t", base)] = True
            else:
                if m in ("append", "add", "remove", "discard") and args:
                    st.facts[("cmp", "in", args[0], base)] = m in ("append", "add")
                    if m in ("append", "add"):
                        st.facts[("t", base)] = True
                if m == "update" and not kw and args:
                    st.heap = {k: v for k, v in st.heap.items() if not (k[0] == "i" and k[1] == base)}
                if m == "pop" and args:
                    if is_c(args[0]):
                        val = self.load(st, mk_index(base, args[0]))
                        st.heap[mk_index(base, args[0])] = ("deleted",)
                        st.facts[("cmp", "in", args[0], base)] = False
                if m == "setdefault" and args:
                    val = mk_index(base, args[0])
            return [(st, val)]
        return None

    PURE_METHODS = {"format", "join", "split", "strip", "startswith", "endswith", "replace", "lower", "upper", "tolist",
                    "astype", "copy", "items", "keys", "values", "count", "index", "sum", "max", "min", "mean", "rjust",
                    "ljust", "stem", "issubset", "difference", "union", "intersection", "encode", "decode", "reshape",
                    "flatten", "ravel", "argmax", "argmin", "title", "rstrip", "lstrip", "with_suffix", "zfill", "get"}

    def havoc(self, st, fi):
        """A call that is not entered: forget what its transitive stores may have changed."""
        keys = self.p.write_keys(fi)
        if not keys:
            return
        hit = lambda t: t[0] in ("a", "i") and last_key(t) in keys
        st.facts = {a: v for a, v in st.facts.items() if not mentions(a, hit)}
        st.heap = {k: v for k, v in st.heap.items() if not (k[0] in ("a", "i") and mentions(k, hit) and root(k)[0] != "new")}

    def opaque(self, e, st, base, name, callee, cal, args, kw):
        ev = self.emit("call", e, st, callee=callee, base=base, name=name, args=args, kw=kw, extra=cal)
        mr = self.rule.may_raise(ev, st, self)
        if isinstance(mr, (tuple, list)):
            for x in mr:
                self.raise_(st, x)
        elif mr:
            self.raise_(st, EXC_ANY)
            if self.rule.base_exc:
                self.raise_(st, EXC_BASE)
        post = Ev("callret", e, func=self.fn, mod=self.fn.module, callee=callee, base=base, name=name, args=args, kw=kw,
                  stack=ev.stack)
        st = st.copy()
        fi = self.p.funcs.get(callee) if callee else None
        if fi is not None and self.rule.havoc:
            self.havoc(st, fi)
        self.rule.on_event(post, st, self)
        v = self.rule.call_value(ev, st, self)
        if v is not None:
            if isinstance(v, list):
                out = []
                for x in v:
                    z = st.copy()
                    if x[0] == "alt":           # ("alt", value, label): this outcome is noted in the rule state
                        z.rs = (z.rs or frozenset()) | x[2] if isinstance(x[2], frozenset) else (z.rs or ()) + (x[2],)
                        x = x[1]
                    out.append((z, x))
                return out
            return [(st, v)]
        if base is not None and name in self.PURE_METHODS and not (name == "get" and (not args or is_c(args[0]) and args[0][1] == "bool")):
            return [(st, ("call", ("method", name), (base,) + tuple(args), tuple(sorted(kw.items()))))]
        t = ("call", cal if base is None else ("method", name), ((base,) if base is not None else ()) + tuple(args),
             tuple(sorted(kw.items())), self.site(e))
        if bigger(t, 600):
            t = ("call", t[1], (), (), t[4])
        st.facts = {a: b for a, b in st.facts.items() if not contains(a, t)}
        st.heap = {k: b for k, b in st.heap.items() if not contains(k, t)}
        return [(st, t)]

    e_Yield = None

    def e_Yield(self, e, st):
        if e.value is None:
            return [(st, ("unk", self.site(e)))]
        return [(x, ("unk", self.site(e))) for x, _ in self.ev(e.value, st)]

    e_YieldFrom = e_Yield


_OPS_AST = {"Add": "+", "Sub": "-", "Mult": "*", "Div": "/", "FloorDiv": "//", "Mod": "%", "BitAnd": "&", "BitOr": "|",
            "BitXor": "^", "Pow": "**", "MatMult": "@", "LShift": "<<", "RShift": ">>"}
_CMP = {"Eq": "==", "NotEq": "!=", "Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">=", "In": "in", "NotIn": "not in",
        "Is": "is", "IsNot": "is not"}


def _as_load(t):
    if isinstance(t, ast.Name):
        return ast.Name(id=t.id, ctx=ast.Load())
    if isinstance(t, ast.Attribute):
        return ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load(), lineno=t.lineno, col_offset=t.col_offset)
    if isinstance(t, ast.Subscript):
        return ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load(), lineno=t.lineno, col_offset=t.col_offset)
    return t


def _pure(e):
    for n in ast.walk(e):
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Name) and n.func.id in BUILTIN_PURE:
                continue
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("any", "all", "get", "isnan", "startswith", "endswith"):
                continue
            return False
        if isinstance(n, (ast.NamedExpr, ast.Lambda, ast.Await)):
            return False
    return True


def _boolish(e):
    """Is the expression's value certainly a bool (so a term may stand for it)?"""
    if isinstance(e, ast.BoolOp):
        return all(_boolish(v) for v in e.values)
    if isinstance(e, ast.UnaryOp):
        return isinstance(e.op, ast.Not)
    if isinstance(e, ast.Compare):
        return True
    if isinstance(e, ast.Constant):
        return isinstance(e.value, bool)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
        return e.func.id in ("any", "all", "isinstance", "bool", "hasattr", "callable")
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
        return e.func.attr in ("any", "all", "startswith", "endswith", "isnan")
    return False


_L = "libensemble."
HINTS = {
    (_L + "manager:Manager", "hist"): _L + "history:History",
    (_L + "manager:Manager", "resources"): _L + "resources.resources:Resources",
    (_L + "resources.resources:Resources", "resources"): _L + "resources.resources:Resources",
    (_L + "resources.resources:Resources", "resource_manager"): _L + "resources.worker_resources:ResourceManager",
    (_L + "executors.executor:Executor", "executor"): _L + "executors.executor:Executor",
}
