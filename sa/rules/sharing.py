"""S04: mutable defaults are not shared."""
import ast

from . import check
from .common import *  # noqa
from .comms import Sim

MUT = {"append", "extend", "insert", "update", "pop", "popitem", "clear", "remove", "setdefault", "add", "discard", "sort", "reverse", "__setitem__", "__delitem__"}
IMMUTABLE = {"tuple", "frozenset", "str", "int", "float", "bytes", "bool", "Path", "PurePath", "cwd", "compile", "device", "getLogger", "namedtuple", "object", "partial", "Semaphore"}


def mutable_defaults(fi):
    """(parameter, default expression) of the defaults that are one object for all calls and can be changed."""
    a = fi.node.args
    ps = [x.arg for x in a.posonlyargs + a.args]
    ds = list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) if a.defaults else []
    ds += [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
    for n, d in ds:
        if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
            yield n, d
        elif isinstance(d, ast.Call) and method_name(d) not in IMMUTABLE:
            yield n, d


def validated(p, fi):
    """Is the function wrapped by pydantic's validate_call (which copies a mutable default for each call)?"""
    def is_vc(n, m, depth=0):
        if n == "validate_call":
            return True
        imp = m.imports.get(n)
        if imp and imp[0] != "mod" and depth < 4:
            if imp[2] == "validate_call":
                return True
            mm = p.modules.get(imp[1])
            return mm is not None and is_vc(imp[2], mm, depth + 1)
        return False
    return any(is_vc(ast.unparse(d.func if isinstance(d, ast.Call) else d).split(".")[-1], fi.module) for d in fi.node.decorator_list)


class Flow:
    """What can happen to the object a parameter is bound to: ("stored", class, attribute) ("changed", how) ("returned",)."""

    def __init__(self, ctx):
        self.ctx, self.p, self.memo = ctx, ctx.p, {}

    def of(self, fi, param, empty=False, depth=0):
        """empty: the object is an empty container as long as nothing changes it."""
        key = (fi.qual, param, empty)
        if key in self.memo or depth > 5:
            return self.memo.get(key, set())
        self.memo[key] = out = set()
        V = P(param)
        p, at = self.p, {}

        def same(t):
            """The very object (through `x or default`, conditional expressions)."""
            t0 = t
            return t0 == V or t0 is not None and t0[0] in ("ite", "or", "phi") and any(x == V for x in t0 if isinstance(x, tuple))

        def label(ev, st):
            w = ev.where()
            if ev.kind == "store" and ev.loc is not None:
                if same(ev.value) and not ev.extra and ev.loc[0] in ("a", "i"):
                    at[ev.loc] = w
                    if ev.loc[0] == "i" and ev.loc[1][0] != "new":
                        out.add(("stored", "?", show(ev.loc), w))
                if ev.loc[0] in ("a", "i") and (ev.loc[1] == V):
                    out.add(("changed", "assignment to " + show(ev.loc), w))
            elif ev.kind == "del" and ev.loc is not None and ev.loc[0] in ("a", "i") and ev.loc[1] == V:
                out.add(("changed", "deletion of " + show(ev.loc), w))
            elif ev.kind == "mutate" and ev.base == V and ev.name in MUT:
                out.add(("changed", f".{ev.name}()", w))
            elif ev.kind == "bind" and ev.extra and ev.value is not None and ev.value[0] == "b" and ev.value[2] == V:
                out.add(("changed", "augmented assignment", w))
            elif ev.kind == "return" and same(ev.value) and ev.func is fi:
                out.add(("returned", w))
            elif ev.kind == "call":
                g = p.funcs.get(ev.callee)
                if g is None and ev.callee in p.classes:
                    g = p.method(p.classes[ev.callee], "__init__")
                if g is not None and g is not fi:
                    for k, v in args_of(ev, g).items():
                        if v == V and k in g.params:
                            for r in self.of(g, k, empty, depth + 1):
                                if r[0] != "returned":
                                    out.add(r)
            return None

        def decide(atom, st):
            if not empty:
                return None
            t = atom[1] if atom[0] == "t" else atom
            if t == V:
                return False
            if t[0] == "cmp" and t[1] == "in" and t[-1] == V:
                return False
            if callname(t) == "len" and t[2] == (V,):
                return False
            return None

        def result(ev, st):
            if empty and ev.base == V and ev.name == "get":
                return [ev.args[1] if len(ev.args) > 1 else NONE]
            return None
        res = self.ctx.engine(Sim(decide=decide, result=result, label=label, inline=lambda g: False, raises=lambda e, s: False, havoc=False,
                                  relevant=lambda a: mentions(a, lambda x: x == V))).run(fi)
        # what an attribute holds when the function ends
        for st, _ in res["return"]:
            for loc, v in st.heap.items():
                if loc[0] == "a" and same(v) and loc in at:
                    out.add(("stored", fi.cls.qual if fi.cls is not None and loc[1] == SELF else "?", loc[2], at[loc]))
        return out


def changed_attrs(p):
    """attribute -> where the object in it is changed (obj.attr.update(..), obj.attr[k] = .., obj.attr.x = ..), per class; "?" for any other object."""
    out = {}

    def note(cls, n, fi, node, how):
        out.setdefault((cls, n), []).append(f"{fi.module.path}:{node.lineno} ({how})")
    for fi in p.funcs.values():
        for n in ast.walk(fi.node):
            tg = []
            if isinstance(n, ast.Assign):
                tg = n.targets
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                tg = [n.target]
            elif isinstance(n, ast.Delete):
                tg = n.targets
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT:
                tg = [ast.Subscript(value=n.func.value, slice=ast.Constant(0))]
            for t in tg:
                for x in t.elts if isinstance(t, ast.Tuple) else [t]:
                    if isinstance(n, ast.AugAssign) and isinstance(x, ast.Attribute):
                        x = ast.Subscript(value=x, slice=ast.Constant(0))
                    if isinstance(x, (ast.Subscript, ast.Attribute)):
                        v = x.value
                        while isinstance(v, ast.Subscript):
                            v = v.value
                        if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name):
                            cls = fi.cls.qual if v.value.id == "self" and fi.cls is not None else "?"
                            note(cls, v.attr, fi, n, ast.unparse(n)[:60])
    return out


def empty_literal(d):
    return isinstance(d, (ast.List, ast.Tuple)) and not d.elts or isinstance(d, ast.Dict) and not d.keys or \
        isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id in ("dict", "list", "set") and not d.args and not d.keywords


def family(p, q):
    c = p.classes.get(q)
    return {q} | ({k.qual for k in p.mro(c)} | {k.qual for k in p.classes.values() if c in p.mro(k)} if c is not None else set())


def property_of(p, q, attr):
    """Names under which a class shows an attribute to its user: itself, and the properties that return it."""
    out = {attr}
    for k in p.mro(p.classes[q]):
        for f in k.methods.values() if hasattr(k, "methods") else ():
            if any(isinstance(d, ast.Name) and d.id == "property" for d in f.node.decorator_list):
                r = [n for n in ast.walk(f.node) if isinstance(n, ast.Return)]
                if any(isinstance(n.value, ast.Attribute) and n.value.attr == attr for n in r):
                    out.add(f.name)
    return out


FACING = (LIB + "ensemble:Ensemble",)


@check("S04", "flow of the object a mutable default parameter holds (path-sensitive, interprocedural): never changed, returned or kept where it is changed")
def s04(ctx):
    p = ctx.p
    fl = Flow(ctx)
    ch = changed_attrs(p)
    ctx.rule("unshared-defaults", "an object that is the default of a parameter, so that all calls share it, is not changed, not returned, and not kept in an attribute that the class (or, for an Ensemble, its user) changes")
    n_f = 0
    for fi in sorted(p.funcs.values(), key=lambda f: f.qual):
        n_f += 1
        for n, d in mutable_defaults(fi):
            w = f"{fi.module.path}:{d.lineno} ({fi.qual.split(':')[1]})"
            what = f"parameter {n} = {ast.unparse(d)}"
            if validated(p, fi):
                ctx.assumption(f"{fi.qual}: pydantic's validate_call hands each call its own copy of the default of {n}")
                continue
            empty = empty_literal(d)
            bad = []
            for x in sorted(fl.of(fi, n, empty), key=str):
                if x[0] == "changed":
                    if not (empty and isinstance(d, ast.List) and x[1].startswith("assignment to " + n + "[")):  # an index of an empty list: fails
                        bad.append(f"changed by {x[1]} at {x[2]}")
                elif x[0] == "returned":
                    bad.append(f"returned at {x[1]}")
                elif x[1] in p.classes:
                    fam = family(p, x[1])
                    facing = [k for k in fam if k in FACING]
                    hits = [h for k in sorted(fam) for h in ch.get((k, x[2]), ())]
                    if empty and isinstance(d, ast.List):
                        hits = [h for h in hits if " = " not in h or ".append" in h]
                    if hits:
                        bad.append(f"kept in {x[1].split(':')[1]}.{x[2]} at {x[3]}, where it is changed: {hits[0]}")
                    elif facing and any(not a.startswith("_") for a in property_of(p, x[1], x[2])):
                        bad.append(f"kept in {x[1].split(':')[1]}.{x[2]} at {x[3]}, which its user changes")
                else:
                    ctx.assumption(f"{w}: {what} is stored in {x[2]}; nothing is assumed to change it there")
            ctx.ob("unshared-defaults", f"{fi.qual.split(':')[1]}: {n}", not bad, w, f"{what} is shared by all calls: {'; '.join(bad)}")
    ctx.floor("functions examined", n_f, 300)
    ctx.rule("unshared-class-attributes", "a list, dictionary or set in a class body, so that all instances share it, is not changed through an instance that did not get its own")
    n_c = 0
    for c in sorted(p.classes.values(), key=lambda c: c.qual):
        for s in c.node.body:
            v = getattr(s, "value", None)
            if not isinstance(s, (ast.Assign, ast.AnnAssign)) or not isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)) and not (
                    isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("dict", "list", "set", "defaultdict", "OrderedDict", "deque")):
                continue
            for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                if not isinstance(t, ast.Name) or any(k.name in ("BaseModel",) for k in p.mro(c)):
                    continue
                n_c += 1
                fam = family(p, c.qual)
                own = any(isinstance(n, ast.Attribute) and n.attr == t.id and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == "self"
                          for k in fam if k in p.classes for n in ast.walk(p.classes[k].node))
                hits = [h for k in sorted(fam) for h in ch.get((k, t.id), ())]
                ctx.ob("unshared-class-attributes", f"{c.qual.split(':')[1]}.{t.id}", own or not hits, f"{c.module.path}:{s.lineno}",
                       f"{t.id} of class {c.name} is one object for all instances and is changed: {hits[0] if hits else ''}")
    ctx.floor("class-level containers", n_c, 1)
