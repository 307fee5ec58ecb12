"""Specifications: their models, validation rules, readers, entry points; clean-up of runs (S01-S04)."""
import ast
import re

from . import check
from .common import *  # noqa
from .comms import Sim, exc_of, isinst

SPECS = LIB + "specs"
BIND = LIB + "utils.pydantic_bindings"
VALID = LIB + "utils.validators"
PLAT = LIB + "resources.platforms"
MODELS = ("SimSpecs", "GenSpecs", "AllocSpecs", "LibeSpecs", "ExitCriteria", "_EnsembleSpecs")
SEEDS = {"libE_specs": "LibeSpecs", "_libE_specs": "LibeSpecs", "sim_specs": "SimSpecs", "gen_specs": "GenSpecs",
         "alloc_specs": "AllocSpecs", "exit_criteria": "ExitCriteria"}
STRICT = {"extra": "forbid", "validate_assignment": True, "populate_by_name": True}
DICTISH = {"get", "items", "keys", "values", "pop", "update", "copy", "setdefault", "__dict__", "__class__", "__name__", "setter", "getter", "deleter"}
PYD = {"model_dump", "model_copy", "model_validate", "model_fields", "model_fields_set", "model_config", "model_rebuild", "dict", "json",
       "model_construct", "model_extra", "model_post_init", "model_dump_json", "model_computed_fields"}


# ---------------------------------------------------------------- the binding module, interpreted statement by statement
class Bindings:
    """What pydantic_bindings does to the models: configuration, aliases, rebuilds and attached validators."""

    def __init__(self, p):
        self.p = p
        self.m = p.module(BIND)
        self.config, self.alias, self.rebuilt, self.created, self.order = {}, {}, set(), {}, []
        self.cur = {}          # (module, attr) -> value after rebinding
        self.run(self.m.tree.body, {})

    # values: ("mod", name) ("cls", modname, clsname) ("at", base, attr) ("c", const) ("seq", [..]) ("map", {k: v}) ("call", fname, args, kw, node)
    def attr(self, b, n):
        if b[0] == "mod":
            if (b[1], n) in self.cur:
                return self.cur[(b[1], n)]
            if f"{b[1]}.{n}" in self.p.modules:
                return ("mod", f"{b[1]}.{n}")
            mm = self.p.modules.get(b[1])
            if mm is not None and n in mm.classes:
                return ("cls", b[1], n)
            if mm is not None:
                return ("name", b[1], n)
        return ("at", b, n)

    def ev(self, e, env):
        if isinstance(e, ast.Constant):
            return ("c", e.value)
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            imp = self.m.imports.get(e.id)
            if imp is not None:
                if imp[0] == "mod":
                    return ("mod", imp[1])
                if f"{imp[1]}.{imp[2]}" in self.p.modules:
                    return ("mod", f"{imp[1]}.{imp[2]}")
                if imp[1] in self.p.modules:
                    return self.attr(("mod", imp[1]), imp[2])
                return ("ext", imp[2])
            if e.id in self.m.funcs:
                return ("fn", self.m.funcs[e.id])
            return ("ext", e.id)
        if isinstance(e, ast.Attribute):
            return self.attr(self.ev(e.value, env), e.attr)
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            return ("seq", [self.ev(x, env) for x in e.elts])
        if isinstance(e, ast.Dict):
            d = {}
            for k, v in zip(e.keys, e.values):
                if k is None:
                    x = self.ev(v, env)
                    if x[0] == "map":
                        d.update(x[1])
                else:
                    d[self.ev(k, env)] = self.ev(v, env)
            return ("map", d)
        if isinstance(e, ast.DictComp) and len(e.generators) == 1:
            d = {}
            it = self.ev(e.generators[0].iter, env)
            for x in (it[1] if it[0] == "seq" else list(it[1]) if it[0] == "map" else []):
                en = dict(env)
                self.bind(e.generators[0].target, x, en)
                d[self.ev(e.key, en)] = self.ev(e.value, en)
            return ("map", d)
        if isinstance(e, ast.Subscript):
            b, k = self.ev(e.value, env), self.ev(e.slice, env)
            if b[0] == "map" and k in b[1]:
                return b[1][k]
            if b[0] == "seq" and k[0] == "c" and isinstance(k[1], int) and k[1] < len(b[1]):
                return b[1][k[1]]
            return ("sub", b, k)
        if isinstance(e, ast.Call):
            f = self.ev(e.func, env)
            args = [self.ev(a, env) for a in e.args]
            kw = {k.arg: self.ev(k.value, env) for k in e.keywords}
            if f[0] == "fn":
                return self.enter(f[1], args, kw)
            if f == ("ext", "getattr") and len(args) == 2 and args[1][0] == "c":
                return self.attr(args[0], args[1][1])
            if f == ("ext", "setattr") and len(args) == 3 and args[1][0] == "c":
                self.setattr(args[0], args[1][1], args[2])
            if f[0] == "at" and f[2] == "model_rebuild" and f[1][0] == "cls":
                self.rebuilt.add(f[1][2])
                self.order.append(("rebuild", f[1][2]))
            if f[0] == "at" and f[2] == "items" and f[1][0] == "map":
                return ("seq", [("seq", [k, v]) for k, v in f[1][1].items()])
            if f[0] == "at" and f[2] in ("keys",) and f[1][0] == "map":
                return ("seq", list(f[1][1]))
            return ("call", f, args, kw, e)
        return ("unk", e)

    def enter(self, fi, args, kw):
        env = dict(zip(fi.params, args))
        env.update({k: v for k, v in kw.items() if k})
        r = self.run(fi.node.body, env)
        return r if r is not None else ("c", None)

    def bind(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for k, x in enumerate(t.elts):
                self.bind(x, v[1][k] if v[0] == "seq" and k < len(v[1]) else ("unk", t), env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            b, k = self.ev(t.value, env), self.ev(t.slice, env)
            if b[0] == "at" and b[2] == "model_fields" and b[1][0] == "cls" and k[0] == "c":
                for al in self.aliases_in(v):
                    self.alias[(b[1][2], k[1])] = al
                    self.order.append(("alias", b[1][2]))
            elif b[0] == "map":
                b[1][k] = v

    def aliases_in(self, v):
        if v[0] == "call":
            if "alias" in v[3] and v[3]["alias"][0] == "c":
                yield v[3]["alias"][1]
            for a in list(v[2]) + list(v[3].values()):
                yield from self.aliases_in(a)

    def setattr(self, b, n, v):
        if b[0] == "cls" and n == "model_config":
            self.config[b[2]] = v
            self.order.append(("config", b[2]))
        elif b[0] == "mod":
            self.cur[(b[1], n)] = ("cls", b[1], n)     # same model, with more validators
            if v[0] == "call":
                base = v[3].get("__base__")
                vs = v[3].get("__validators__")
                same = base is not None and base[0] == "cls" and base[2] == n
                d = self.created.setdefault(n, {"base": same, "validators": {}, "node": v[4]})
                d["base"] = d["base"] and same
                if vs is not None and vs[0] == "map":
                    d["validators"].update({k[1]: x for k, x in vs[1].items() if k[0] == "c"})
                self.order.append(("create", n))

    def run(self, body, env):
        for st in body:
            if isinstance(st, ast.Assign):
                v = self.ev(st.value, env)
                for t in st.targets:
                    self.bind(t, v, env)
            elif isinstance(st, ast.AnnAssign) and st.value is not None:
                self.bind(st.target, self.ev(st.value, env), env)
            elif isinstance(st, ast.Expr):
                self.ev(st.value, env)
            elif isinstance(st, ast.For):
                it = self.ev(st.iter, env)
                for x in (it[1] if it[0] == "seq" else list(it[1]) if it[0] == "map" else []):
                    self.bind(st.target, x, env)
                    self.run(st.body, env)
            elif isinstance(st, ast.If):
                neg = isinstance(st.test, ast.Compare) and isinstance(st.test.ops[0], ast.In) or isinstance(st.test, ast.UnaryOp)
                if "sphinx" in ast.unparse(st.test):
                    # the documentation build is not an execution of the library
                    self.run(st.orelse if neg and isinstance(st.test, ast.Compare) else st.body, env)
                else:
                    self.run(st.body, env)
                    self.run(st.orelse, env)
            elif isinstance(st, ast.With):
                self.run(st.body, env)
            elif isinstance(st, ast.Return):
                return self.ev(st.value, env) if st.value is not None else ("c", None)
        return None


def bindings(ctx):
    b = ctx.p.__dict__.get("_bindings")
    if b is None:
        b = ctx.p.__dict__["_bindings"] = Bindings(ctx.p)
    return b


def model_cls(p, model):
    return p.cls(f"{PLAT if model == 'Platform' else SPECS}:{model}")


def fields(p, model):
    """Declared fields of a model class -> AnnAssign node."""
    c = model_cls(p, model)
    return {st.target.id: st for st in c.node.body if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and not st.target.id.startswith("model_")}


def documented(p, model):
    body = model_cls(p, model).node.body
    out = set()
    for a, b in zip(body, body[1:]):
        if isinstance(a, ast.AnnAssign) and isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant) and isinstance(b.value.value, str):
            out.add(a.target.id)
    return out


# ---------------------------------------------------------------- which expressions are specifications
class Kinds:
    """Flow-insensitive, interprocedural: which variables and attributes hold which specification."""

    COPY = {"dict", "copy", "deepcopy", "specs_dump", "model_dump", "model_copy"}

    def __init__(self, p, self_kinds=None):
        self.p = p
        self.var, self.at = {}, {}
        self.self_kinds = self_kinds or {}
        self.parent_fn = {}
        for _ in range(8):
            n = (sum(map(len, self.var.values())), sum(map(len, self.at.values())))
            for f in p.funcs.values():
                self.flow(f)
            if n == (sum(map(len, self.var.values())), sum(map(len, self.at.values()))):
                break

    def kinds(self, e, f):
        if isinstance(e, ast.Name):
            if e.id in SEEDS:
                return {SEEDS[e.id]}
            g = f
            while g is not None:
                if (g.qual, e.id) in self.var:
                    return self.var[(g.qual, e.id)]
                g = g.parent
            return self.self_kinds.get(f.qual, set()) if e.id == "self" else set()
        if isinstance(e, ast.Attribute):
            if e.attr in SEEDS:
                return {SEEDS[e.attr]}
            if e.attr == "__dict__":
                return self.kinds(e.value, f)
            if isinstance(e.value, ast.Name) and e.value.id == "self" and f.cls is not None:
                out = set()
                for c in [f.cls] + list(self.p.mro(f.cls)):
                    out |= self.at.get((c.qual, e.attr), set())
                return out
            return set()
        if isinstance(e, ast.BoolOp):
            return set().union(*[self.kinds(v, f) for v in e.values])
        if isinstance(e, ast.IfExp):
            return self.kinds(e.body, f) | self.kinds(e.orelse, f)
        if isinstance(e, ast.Call):
            n = method_name(e)
            if n in self.COPY:
                out = self.kinds(e.func.value, f) if isinstance(e.func, ast.Attribute) and n in ("copy", "model_dump", "model_copy") and not e.args else set()
                return out | (self.kinds(e.args[0], f) if e.args else set())
            if n in MODELS and n != "_EnsembleSpecs":
                return {n}
            if isinstance(e.func, ast.Name) and n in ("scg", "specs_checker_getattr", "getattr") and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant):
                return {SEEDS[e.args[1].value]} if e.args[1].value in SEEDS else set()
        return set()

    def add(self, d, key, k):
        if k:
            d.setdefault(key, set()).update(k)

    def flow(self, f):
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    self.target(t, self.kinds(n.value, f), f)
            elif isinstance(n, (ast.AnnAssign, ast.NamedExpr)) and n.value is not None:
                self.target(n.target, self.kinds(n.value, f), f)
            elif isinstance(n, ast.Call):
                for g, bound in self.targets(n, f):
                    ps = g.params[1:] if bound and g.params and g.params[0] in ("self", "cls") else g.params
                    for a, q in zip(n.args, ps):
                        if not isinstance(a, ast.Starred):
                            self.add(self.var, (g.qual, q), self.kinds(a, f) if q not in SEEDS else set())
                    for k in n.keywords:
                        if k.arg and k.arg not in SEEDS and k.arg in [x.arg for x in g.node.args.args + g.node.args.kwonlyargs]:
                            self.add(self.var, (g.qual, k.arg), self.kinds(k.value, f))

    def target(self, t, k, f):
        if isinstance(t, ast.Name) and t.id not in SEEDS:
            self.add(self.var, (f.qual, t.id), k)
        elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id in ("self", "cls") and f.cls is not None and t.attr not in SEEDS:
            self.add(self.at, (f.cls.qual, t.attr), k)

    def targets(self, n, f):
        fn = n.func
        p = self.p
        if isinstance(fn, ast.Name):
            g = f
            while g is not None:
                for h in p.funcs.values():
                    if h.parent is g and h.name == fn.id:
                        return [(h, False)]
                g = g.parent
            r = p.resolve(f.module, fn.id)
            if r and r[0] == "fn":
                return [(r[1], False)]
            if r and r[0] == "cls":
                i = p.method(r[1], "__init__")
                return [(i, True)] if i else []
            return []
        if isinstance(fn, ast.Attribute):
            if isinstance(fn.value, ast.Name) and fn.value.id in ("self", "cls") and f.cls is not None:
                m = p.method(f.cls, fn.attr)
                return [(m, True)] if m else []
            if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super" and f.cls is not None:
                for c in list(p.mro(f.cls))[1:]:
                    if fn.attr in c.methods:
                        return [(c.methods[fn.attr], True)]
                return []
            c = p.cls_of_expr(f.module, fn.value)
            if c is not None:
                m = p.method(c, fn.attr)
                return [(m, not m.is_static)] if m else []
            r = p.resolve(f.module, fn.value.id) if isinstance(fn.value, ast.Name) else None
            if r and r[0] == "g" and r[1] in p.modules and fn.attr in p.modules[r[1]].funcs:
                return [(p.modules[r[1]].funcs[fn.attr], False)]
        return []


def const_key(e, f, p):
    """Possible string keys of an expression: (exact keys, patterns); (None, None) when it is not a string key."""
    if isinstance(e, ast.Constant):
        return ([e.value], []) if isinstance(e.value, str) else (None, None)
    if isinstance(e, ast.IfExp):
        a, b = const_key(e.body, f, p), const_key(e.orelse, f, p)
        return (a[0] + b[0], a[1] + b[1]) if a[0] is not None and b[0] is not None else (None, None)
    if isinstance(e, ast.JoinedStr):
        rx = "".join(re.escape(v.value) if isinstance(v, ast.Constant) else ".*" for v in e.values)
        return [], [rx]
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        part = lambda x: re.escape(x.value) if isinstance(x, ast.Constant) and isinstance(x.value, str) else ".*"
        if any(isinstance(x, ast.Constant) for x in (e.left, e.right)):
            return [], [part(e.left) + part(e.right)]
    if isinstance(e, ast.Name) and f is not None:
        r = p.resolve(f.module, e.id)
        local = [n for n in ast.walk(f.node) if isinstance(n, ast.Name) and n.id == e.id and isinstance(n.ctx, ast.Store)]
        if e.id not in f.params and not local and r and r[0] == "const":
            try:
                v = p.const(r[2], r[1])
                return ([v], []) if isinstance(v, str) else (None, None)
            except ValueError:
                return None, None
        its = [n for n in ast.walk(f.node) if isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.target, ast.Name) and n.target.id == e.id]
        if its and len(local) == len(its):
            out = []
            for n in its:
                try:
                    v = p.const(f.module, n.iter)
                except (ValueError, TypeError):
                    return None, None
                if not all(isinstance(x, str) for x in v):
                    return None, None
                out += list(v)
            return out, []
    return None, None


def reads(p, ks):
    """(function, node, kinds, how, keys, patterns) of every use of a specification's key or attribute."""
    for f in p.funcs.values():
        own = [n for n in ast.walk(f.node)]
        inner = set()
        for g in p.funcs.values():
            if g.parent is f:
                inner |= {id(n) for n in ast.walk(g.node)}
        for n in own:
            if id(n) in inner:
                continue
            if isinstance(n, ast.Subscript):
                k = ks.kinds(n.value, f)
                how = "attr" if isinstance(n.value, ast.Attribute) and n.value.attr == "__dict__" else "key"
                if k:
                    yield f, n, k, how, *const_key(n.slice, f, p)
            elif isinstance(n, ast.Call):
                nm = method_name(n)
                if nm in ("get", "pop", "setdefault") and isinstance(n.func, ast.Attribute) and n.args:
                    k = ks.kinds(n.func.value, f)
                    how = "attr" if isinstance(n.func.value, ast.Attribute) and n.func.value.attr == "__dict__" else "key"
                    if k:
                        yield f, n, k, how, *const_key(n.args[0], f, p)
                elif nm in ("scg", "scs", "specs_checker_getattr", "specs_checker_setattr", "getattr", "setattr", "hasattr") and isinstance(n.func, ast.Name) and len(n.args) >= 2:
                    k = ks.kinds(n.args[0], f)
                    if k:
                        yield f, n, k, "attr", *const_key(n.args[1], f, p)
            elif isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
                k = ks.kinds(n.comparators[0], f)
                if k and isinstance(n.left, ast.Constant):
                    yield f, n, k, "key", *const_key(n.left, f, p)
            elif isinstance(n, ast.Attribute) and n.attr not in DICTISH | PYD:
                k = ks.kinds(n.value, f)
                if k and not (isinstance(n.value, ast.Attribute) and n.value.attr == "__dict__"):
                    yield f, n, k, "attr", [n.attr], []
            elif isinstance(n, ast.Assign) and isinstance(n.value, ast.Dict):
                for t in n.targets:
                    if isinstance(t, ast.Name) and t.id in SEEDS:
                        yield f, n, {SEEDS[t.id]}, "key", [x.value for x in n.value.keys if isinstance(x, ast.Constant) and isinstance(x.value, str)], []


def model_functions(p, b):
    """Functions whose first parameter is a model: validators by the models they are attached to, methods of the models."""
    out = {}
    for model, d in b.created.items():
        for v in d["validators"].values():
            fi = validator_info(p, v)
            if fi is not None and fi["mode"] != "before" and fi["fn"] is not None and fi["fields"] is None:
                out.setdefault(fi["fn"].qual, set()).add(model)
    for model in MODELS:
        c = p.cls(f"{SPECS}:{model}")
        for m in c.methods.values():
            out.setdefault(m.qual, set()).add(model)
    return out


def validator_info(p, v):
    """("name", module, name) -> {"fn", "fields" or None, "mode"}: the last module-level binding of that name."""
    if v[0] != "name":
        return None
    m = p.modules.get(v[1])
    if m is None:
        return None
    last = None
    for st in m.tree.body:
        if isinstance(st, ast.FunctionDef) and st.name == v[2]:
            last = st
        elif isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == v[2] for t in st.targets):
            last = st
    if last is None:
        return None

    def deco(call):
        """field_validator("a", "b", mode=...) / model_validator(mode=...)"""
        if not isinstance(call, ast.Call):
            return None
        n = method_name(call)
        if n not in ("field_validator", "model_validator"):
            return None
        mode = "after"
        for k in call.keywords:
            if k.arg == "mode" and isinstance(k.value, ast.Constant):
                mode = k.value.value
        fs = None
        if n == "field_validator":
            fs = []
            for a in call.args:
                a = a.value if isinstance(a, ast.Starred) else a
                try:
                    x = p.const(m, a)
                except ValueError:
                    continue
                fs += [x] if isinstance(x, str) else list(x)
        return fs, mode
    if isinstance(last, ast.FunctionDef):
        for d in last.decorator_list:
            r = deco(d)
            if r:
                return {"fn": p.funcs.get(f"{m.name}:{last.name}"), "fields": r[0], "mode": r[1], "node": last}
        return None
    if isinstance(last.value, ast.Call):
        r = deco(last.value.func)
        if r and last.value.args:
            a = last.value.args[0]
            while isinstance(a, ast.Call) and a.args:      # classmethod(f)
                a = a.args[0]
            if isinstance(a, ast.Name):
                return {"fn": m.funcs.get(a.id), "fields": r[0], "mode": r[1], "node": last}
    return None


@check("S01", "interprocedural alias analysis finding every read of a specification, checked against the declared fields and dump aliases; statement-level interpretation of the model bindings")
def s01(ctx):
    p = ctx.p
    ctx.rule("known-option", "every key or attribute of a specification that the code reads or sets is a declared field of that specification (under the name it has after dumping, for dictionaries)")
    ctx.rule("documented", "every declared field of a specification is documented")
    ctx.rule("not-ignored", "every declared option is read somewhere by the code it configures")
    ctx.rule("strict", "every specification model refuses unknown options, checks assignments, accepts field names and is rebuilt after its configuration")
    b = bindings(ctx)
    names, dumped = {}, {}
    for mdl in MODELS + ("Platform",):
        fs = fields(p, mdl)
        names[mdl] = set(fs)
        dumped[mdl] = {b.alias.get((mdl, x), x) for x in fs}
    ctx.floor("specification fields", sum(map(len, names.values())), 90)
    # ---- strictness
    for mdl in MODELS + ("Platform",):
        cfg = b.config.get(mdl)
        c = model_cls(p, mdl)
        wh = f"{b.m.path}:1"
        own = c.node.body and next((st.value for st in c.node.body if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "model_config" for t in st.targets)), None)
        kv = {}
        if cfg is not None and cfg[0] == "call":
            kv = {k: v[1] for k, v in cfg[3].items() if v[0] == "c"}
            if "**" in cfg[3] or None in cfg[3]:
                ctx.assumption("pydantic_bindings: the model configuration is built from parts the analysis does not read")
                continue
        elif cfg is not None and cfg[0] == "map":
            kv = {k[1]: v[1] for k, v in cfg[1].items() if k[0] == "c" and v[0] == "c"}
        elif own is not None:
            try:
                kv = p.const(c.module, own)
            except ValueError:
                kv = {k.arg: k.value.value for k in getattr(own, "keywords", []) if isinstance(k.value, ast.Constant)}
        elif cfg is not None:
            ctx.assumption("pydantic_bindings: a model configuration the analysis does not read")
            continue
        for k, v in STRICT.items():
            ctx.ob("strict", f"{mdl} {k}", kv.get(k) == v, wh, f"{k} is {kv.get(k, 'not set')!r}")
        created = mdl in b.created and b.created[mdl]["base"]
        if own is None or any(k[0] == mdl for k in b.alias):
            ctx.ob("strict", f"{mdl} rebuilt", mdl in b.rebuilt or created and not any(k[0] == mdl for k in b.alias), wh, "the model is not rebuilt after its configuration was changed")
            seq = [x[0] for x in b.order if x[1] == mdl]
            if "rebuild" in seq:
                last = max(i for i, x in enumerate(seq) if x == "rebuild")
                ctx.ob("strict", f"{mdl} order", not any(x in ("config", "alias") for x in seq[last + 1:]), wh, "its configuration or aliases change after the model was rebuilt")
        if mdl in b.created:
            ctx.ob("strict", f"{mdl} base", b.created[mdl]["base"], f"{b.m.path}:{b.created[mdl]['node'].lineno}", "the validated model is not built on the model itself: fields or configuration are lost")
    # ---- documentation
    for mdl in MODELS[:-1] + ("Platform",):
        doc = documented(p, mdl)
        for x, n in fields(p, mdl).items():
            ctx.ob("documented", f"{mdl}.{x}", x in doc, f"{model_cls(p, mdl).module.path}:{n.lineno}", "no documentation follows the field")
    # ---- reads
    ks = Kinds(p, model_functions(p, b))
    seen, dyn = 0, 0
    by = {m: set() for m in names}
    pats = []
    for f, n, kinds, how, keys, rx in reads(p, ks):
        if keys is None:
            dyn += 1
            continue
        models = [k for k in kinds if k in names]
        if not models:
            continue
        methods = set()
        for k in models:
            c = model_cls(p, k)
            methods |= set(c.methods)
        for key in keys:
            seen += 1
            if how == "attr":
                ok = any(key in names[k] for k in models) or key in methods or key.startswith("__")
            else:
                ok = any(key in dumped[k] for k in models) or f.module.name.startswith((LIB + "ensemble", LIB + "specs")) and any(key in names[k] for k in models)
            for k in models:
                if key in names[k] or key in dumped[k]:
                    by[k].add(key)
            ctx.ob("known-option", f"{f.qual.split(':')[-1]} {'/'.join(sorted(models))} {key}", ok, ctx.where(f, n), f"'{key}' is not a field of {' or '.join(sorted(models))}" + (" as it is dumped" if how == "key" and any(key in names[k] for k in models) else ""))
        for r in rx:
            hit = [x for k in models for x in dumped[k] if re.fullmatch(r, x)]
            ctx.ob("known-option", f"{f.qual.split(':')[-1]} {'/'.join(sorted(models))} {r}", bool(hit), ctx.where(f, n), f"no field of {' or '.join(sorted(models))} matches '{r}'")
            for k in models:
                by[k] |= {x for x in dumped[k] if re.fullmatch(r, x)}
    ctx.floor("reads of specification keys", seen, 150)
    if dyn:
        ctx.counts["reads with a computed key"] = dyn
    # ---- the other direction: an option nothing reads is silently ignored
    words, attrs, rxs = set(), set(), []
    for m in p.modules.values():
        if m.name == SPECS or m.name in (BIND, VALID, LIB + "utils.specs_checkers"):
            continue
        doc = {id(x.value) for x in ast.walk(m.tree) if isinstance(x, ast.Expr)}
        parts = {id(v) for x in ast.walk(m.tree) if isinstance(x, ast.JoinedStr) for v in x.values}
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Constant) and isinstance(x.value, str) and id(x) not in doc and id(x) not in parts:
                words.add(x.value)
            elif isinstance(x, ast.Attribute):
                attrs.add(x.attr)
            elif isinstance(x, ast.JoinedStr) and any(isinstance(v, ast.Constant) and "_" in v.value for v in x.values) and len(x.values) > 1:
                rx = "".join(re.escape(v.value) if isinstance(v, ast.Constant) else r"\w*" for v in x.values)
                if re.fullmatch(r"[\w.*\\]+", rx):
                    rxs.append(rx)
    for mdl in ("LibeSpecs", "SimSpecs", "GenSpecs", "AllocSpecs", "ExitCriteria"):
        for x, n in fields(p, mdl).items():
            d = b.alias.get((mdl, x), x)
            used = x in by[mdl] or d in by[mdl] or d in words or x in attrs or any(re.fullmatch(r, d) for r in rxs)
            ctx.ob("not-ignored", f"{mdl}.{x}", used, f"{p.module(SPECS).path}:{n.lineno}", "nothing in the package reads this option")


# ---------------------------------------------------------------- which model a name means: the order of imports
class Imports:
    """Module-level execution order of the package when it is first imported: which model object each from-import binds."""

    def __init__(self, p, b):
        self.p, self.done, self.running, self.bound = p, set(), [], []
        self.made = {}          # model -> True once its validated version replaced it
        self.b = b
        self.enter(LIB.rstrip("."))

    def enter(self, name):
        parts = name.split(".")
        for k in range(1, len(parts) + 1):
            self.load(".".join(parts[:k]))

    def load(self, name):
        m = self.p.modules.get(name)
        if m is None or name in self.done or name in self.running:
            return
        self.running.append(name)
        self.block(m, m.tree.body)
        self.running.pop()
        self.done.add(name)

    def block(self, m, body):
        for st in body:
            if isinstance(st, ast.Import):
                for a in st.names:
                    self.enter(a.name)
            elif isinstance(st, ast.ImportFrom):
                src = st.module or ""
                if st.level:
                    parts = m.name.split(".")
                    if not m.path.endswith("__init__.py"):
                        parts = parts[:-1]
                    src = ".".join(parts[: len(parts) - (st.level - 1)] + ([src] if src else []))
                self.enter(src)
                for a in st.names:
                    full = f"{src}.{a.name}"
                    mm = self.p.modules.get(src)
                    if full in self.p.modules and not (mm is not None and (a.name in mm.funcs or a.name in mm.classes)):
                        self.load(full)
                    elif src in (SPECS, PLAT) and a.name in self.b.created and m.name != BIND:
                        self.bound.append((m, st, a.name, a.asname or a.name, self.made.get(a.name, False)))
            elif isinstance(st, (ast.If, ast.Try, ast.With)):
                if not (isinstance(st, ast.If) and "TYPE_CHECKING" in ast.unparse(st.test)):
                    self.block(m, st.body)
                for h in getattr(st, "handlers", []):
                    self.block(m, h.body)
                self.block(m, getattr(st, "orelse", []))
                self.block(m, getattr(st, "finalbody", []))
            elif isinstance(st, ast.ClassDef):
                self.block(m, st.body)
            if m.name == BIND:
                for mdl, d in self.b.created.items():
                    if getattr(d["node"], "lineno", 0) <= (st.end_lineno or 0):
                        self.made[mdl] = True


def evaluated_uses(m, name):
    """Where a module-level name is used as a value: called, or the annotation of a validated entry point."""
    out = []
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Name) and f.id == name or isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == name and f.attr.startswith("model_"):
                out.append((n, "builds"))
        elif isinstance(n, ast.FunctionDef) and any("wrapper" in ast.unparse(d) or "validate_call" in ast.unparse(d) for d in n.decorator_list):
            for a in n.args.args:
                if a.annotation is not None and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(a.annotation)):
                    out.append((a, "checks its arguments with"))
    return out


# ---------------------------------------------------------------- S02: the rules, by what they accept and reject
COMMS = ("mpi", "local", "threads", "tcp")


def cval(t):
    """Python value of a term built of constants (raises ValueError otherwise)."""
    if is_c(t):
        return t[2]
    if t[0] in ("tuple", "list", "clist"):
        return [cval(x) for x in t[1]]
    if t[0] == "len":
        return len(cval(t[1]))
    n = callname(t)
    if n in ("str", "pathlib.Path", ".absolute", ".resolve", "os.path.abspath", "os.path.realpath", "os.fspath", ".expanduser") and t[2]:
        return str(cval(t[2][0]))
    if t[0] == "b" and t[1] in ("%", "+", "-", "*"):
        a, b = cval(t[2]), cval(t[3])
        return a % b if t[1] == "%" else a + b if t[1] == "+" else a - b if t[1] == "-" else a * b
    raise ValueError


def cval_at(t, vals):
    """Truth of an atom over terms with given values."""
    x = lambda u: vals[u] if u in vals else cval(u)
    if t[0] == "cmp" and t[1] in ("<0", "==0"):
        v = t[3] + sum(x(y) * k for y, k in t[2])
        return v < 0 if t[1] == "<0" else v == 0
    if t[0] == "cmp" and t[1] in ("==", "<", "<="):
        a, b = x(t[2]), x(t[3])
        return a == b if t[1] == "==" else a < b if t[1] == "<" else a <= b
    return bool(x(t))


def rule_decide(missing=(), more=None):
    """Atoms over constants and over the existence of files."""
    def decide(a, st):
        if more is not None:
            r = more(a, st)
            if r is not None:
                return r
        t = a[1] if a[0] == "t" else a
        n = callname(t)
        if n in (".exists", "os.path.exists", "os.path.isdir", ".is_dir") and t[2]:
            try:
                return cval(t[2][0]) not in missing
            except ValueError:
                return None
        if t[0] == "cmp" and t[1] in ("<0", "==0"):
            try:
                x = t[3] + sum(cval(y) * k for y, k in t[2])
                return x < 0 if t[1] == "<0" else x == 0
            except (ValueError, TypeError):
                return None
        if t[0] == "cmp":
            try:
                x, y = cval(t[2]), cval(t[3])
                if t[1] in ("==", "is"):
                    return x == y
                if t[1] == "<":
                    return x < y
                if t[1] == "<=":
                    return x <= y
                if t[1] == "in":
                    return x in y
            except (ValueError, TypeError):
                return None
        if a[0] == "t":
            try:
                return bool(cval(t))
            except ValueError:
                return None
        s = isinst(a)
        if s is not None:
            try:
                v = cval(s[0])
            except ValueError:
                return None
            if s[0][0] == "c":
                return type(v).__name__ in {x.split(".")[-1] for x in s[1]}
            return "Path" in {x.split(".")[-1].split(":")[-1] for x in s[1]} if callname(s[0]) in ("pathlib.Path", ".absolute") else None
        return None
    return decide


def outcomes(ctx, fi, heap=None, value=None, decide=None, raises=None, inline=None, vhook=None):
    """[("ok", state, returned)] and [("rejected", state, exception name)] of one validation rule."""
    args = {}
    if value is not None:
        ps = [x for x in fi.params if x not in ("cls", "self")]
        if not ps:
            raise AnalysisBroken(f"{fi.qual}: takes no value")
        args[ps[0]] = value
    res = ctx.engine(Sim(decide or rule_decide(), raises=raises, inline=inline, value=vhook, relevant=lambda a: True, havoc=False)).run(fi, heap=heap or {}, args=args)
    return [("ok", st, t) for st, t in res["return"]] + [("rejected", st, exc_of(st)) for st in res["raise"]]


def lst(*names):
    return ("list", tuple(("tuple", (C(x), ("g", "float"))) for x in names))


def opt(*kv):
    """self with these options."""
    return {A(SELF, *k.split(".")): v for k, v in kv}


def attached(p, b, model, field=None, mode="after"):
    """Rules attached to a model: of one field, or of the whole model."""
    out = []
    for v in b.created.get(model, {"validators": {}})["validators"].values():
        i = validator_info(p, v)
        if i is None or i["fn"] is None:
            continue
        if field is None and i["fields"] is None and i["mode"] == mode:
            out.append(i["fn"])
        elif field is not None and i["fields"] is not None and field in i["fields"]:
            out.append(i["fn"])
    return out


def field_tables():
    """(model, field) -> [(value, accepted?, missing files, note)]"""
    T = {}
    for m in ("SimSpecs", "GenSpecs"):
        for x in ("inputs", "persis_in"):
            T[(m, x)] = [(("list", (C("x"), C("f"))), True, (), "names"), (("list", (C("x"), C(3))), False, (), "something that is not a name"), (("list", ()), True, (), "nothing")]
    T[("LibeSpecs", "comms")] = [(C(c), True, (), c) for c in COMMS] + [(C("carrier pigeon"), False, (), "an unknown communication mode")]
    for x in ("sim_input_dir", "gen_input_dir"):
        T[("LibeSpecs", x)] = [(C("/data"), True, (), "an existing path"), (C("/none"), False, ("/none",), "a missing path"), (C(""), True, (), "not set")]
    for x in ("sim_dir_copy_files", "sim_dir_symlink_files", "gen_dir_copy_files", "gen_dir_symlink_files"):
        T[("LibeSpecs", x)] = [(("list", (C("/a"), C("/b"))), True, (), "existing paths"), (("list", (C("/a"), C("/none"))), False, ("/none",), "a missing path after an existing one"),
                               (("list", (C("/none"), C("/b"))), False, ("/none",), "a missing path before an existing one"), (("list", ()), True, (), "no paths")]
    T[("Platform", "mpi_runner")] = [(C(c), True, (), c) for c in ("mpich", "openmpi", "aprun", "srun", "jsrun", "msmpi", "custom")] + [(C("mpirunner"), False, (), "an unknown runner"), (NONE, True, (), "not set")]
    T[("Platform", "gpu_setting_type")] = [(C(c), True, (), c) for c in ("runner_default", "env", "option_gpus_per_node", "option_gpus_per_task")] + [(C("flag"), False, (), "an unknown setting type"), (NONE, True, (), "not set")]
    return T


def model_tables():
    """model -> [(options, accepted?, {option: required value or predicate}, note)]"""
    L = lambda c, n, w, **kw: opt(("comms", C(c)), ("nworkers", C(n)), ("workers", w), ("disable_resource_manager", FALSE), ("use_workflow_dir", FALSE), ("workflow_dir_path", C("")),
                                  ("sim_input_dir", C("")), ("gen_input_dir", C("")), ("sim_dirs_make", FALSE), ("gen_dirs_make", FALSE),
                                  ("save_H_on_completion", FALSE), ("save_every_k_sims", C(0)), ("save_every_k_gens", C(0)), *kw.items())
    E = lambda stop, s, g: opt(("exit_criteria.stop_val", stop), ("sim_specs.outputs", lst(*s)), ("gen_specs.outputs", lst(*g)))
    two = ("list", (C("h1"), C("h2")))
    T = {
        "LibeSpecs": [
            (L("local", 4, NONE), True, {"disable_resource_manager": FALSE, "use_workflow_dir": FALSE, "sim_dirs_make": FALSE, "gen_dirs_make": FALSE, "save_H_on_completion": FALSE}, "local workers"),
            (L("local", -1, NONE), False, {}, "local, a negative number of workers"),
            (L("tcp", -2, NONE), False, {}, "tcp, a negative number of workers"),
            (L("tcp", 0, NONE), False, {}, "tcp, neither a number of workers nor hosts"),
            (L("tcp", 0, two), True, {"disable_resource_manager": TRUE}, "tcp, hosts"),
            (L("tcp", 3, NONE), True, {"disable_resource_manager": TRUE}, "tcp, a number of workers"),
            (L("mpi", 0, NONE), True, {"disable_resource_manager": FALSE}, "mpi"),
            (L("local", 4, NONE, save_every_k_sims=C(5)), True, {"save_H_on_completion": TRUE}, "saving every k sims"),
            (L("local", 4, NONE, save_every_k_gens=C(5)), True, {"save_H_on_completion": TRUE}, "saving every k gens"),
            (L("local", 4, NONE, workflow_dir_path=C("/a/b")), True, {"use_workflow_dir": TRUE, "workflow_dir_path": lambda v: mentions(v, lambda x: x == C("/a/b"))}, "a workflow directory is named"),
            (L("local", 4, NONE, use_workflow_dir=TRUE), True, {"use_workflow_dir": TRUE, "workflow_dir_path": lambda v: v != C("")}, "a workflow directory is asked for"),
            (L("local", 4, NONE, use_workflow_dir=TRUE, workflow_dir_path=C("/a/b")), True, {"use_workflow_dir": TRUE, "workflow_dir_path": lambda v: mentions(v, lambda x: x == C("/a/b"))}, "a workflow directory is asked for and named"),
            (L("local", 4, NONE, sim_input_dir=C("/in")), True, {"sim_dirs_make": TRUE, "gen_dirs_make": FALSE}, "an input directory for sims"),
            (L("local", 4, NONE, gen_input_dir=C("/in")), True, {"gen_dirs_make": TRUE, "sim_dirs_make": FALSE}, "an input directory for gens"),
        ],
        "Platform": [
            (opt(("cores_per_node", C(4)), ("logical_cores_per_node", C(8))), True, {}, "logical cores a multiple of cores"),
            (opt(("cores_per_node", C(4)), ("logical_cores_per_node", C(4))), True, {}, "logical cores equal to cores"),
            (opt(("cores_per_node", C(3)), ("logical_cores_per_node", C(4))), False, {}, "logical cores not a multiple of cores"),
            (opt(("cores_per_node", C(8)), ("logical_cores_per_node", C(4))), False, {}, "fewer logical cores than cores"),
            (opt(("cores_per_node", NONE), ("logical_cores_per_node", C(4))), True, {}, "only logical cores"),
            (opt(("cores_per_node", C(4)), ("logical_cores_per_node", NONE)), True, {}, "only cores"),
        ],
        "_EnsembleSpecs": [
            (E(NONE, ("f",), ("x",)), True, {}, "no stop value"),
            (E(("tuple", (C("f"), C(1))), ("g", "f"), ("x",)), True, {}, "stop on an output of the simulation"),
            (E(("tuple", (C("x"), C(1))), ("f",), ("y", "x")), True, {}, "stop on an output of the generator"),
            (E(("tuple", (C("z"), C(1))), ("f",), ("x",)), False, {}, "stop on a field nobody outputs"),
        ],
    }
    return T


def at(st, key):
    return st.heap.get(A(SELF, *key.split(".")))


def field_rules(ctx, b):
    p = ctx.p
    for (mdl, x), rows in field_tables().items():
        fns = attached(p, b, mdl, x)
        if not ctx.ob("attached", f"{mdl}.{x}", fns, b.m.path, f"no rule is attached to {mdl}.{x}"):
            continue
        for v, ok, missing, note in rows:
            rejected, unsure = None, False
            for fn in fns:
                o = outcomes(ctx, fn, value=v, decide=rule_decide(missing))
                kinds = {k for k, *_ in o}
                if kinds == {"rejected"}:
                    rejected = fn
                elif kinds == {"rejected", "ok"} or not kinds:
                    unsure = True
                for k, st, t in o:
                    if k == "ok":
                        ctx.ob("returns", f"{mdl}.{x} {note}", t is not None and t != NONE or v == NONE, ctx.where(fn), "an accepted value is replaced by nothing")
                    else:
                        ctx.ob("error", f"{mdl}.{x} {note}", t in ("AssertionError", "ValueError", None) or kinds == {"ok"}, ctx.where(fn), f"a bad value raises {t}, which is not a validation error")
            if unsure and rejected is None:
                ctx.assumption(f"{mdl}.{x}: {note}: the rule's verdict depends on something the analysis does not decide")
                continue
            ctx.ob("verdict", f"{mdl}.{x} {note}", (rejected is None) == ok, ctx.where(rejected or fns[0]), f"{note} is {'rejected' if rejected is not None else 'accepted'}")
    # output types: whatever NumPy refuses is refused
    for mdl in ("SimSpecs", "GenSpecs"):
        fns = attached(p, b, mdl, "outputs")
        if ctx.ob("attached", f"{mdl}.outputs", fns, b.m.path, f"no rule is attached to {mdl}.outputs"):
            bad, fine = False, True
            for fn in fns:
                o = outcomes(ctx, fn, value=P("@out"), raises=lambda ev, st: ["TypeError"] if ev.callee in ("numpy.dtype", ("g", "numpy.dtype")) or ev.name == "dtype" else False)
                bad = bad or any(k == "rejected" and t == "ValueError" for k, st, t in o)
                fine = fine and any(k == "ok" and t == P("@out") for k, st, t in o) and all(t == P("@out") for k, st, t in o if k == "ok")
                ctx.ob("error", f"{mdl}.outputs", all(t in ("ValueError", "AssertionError", "any") for k, st, t in o if k == "rejected"), ctx.where(fn), "a type NumPy refuses is not reported as a validation error")
            ctx.ob("verdict", f"{mdl}.outputs a type NumPy refuses", bad, ctx.where(fns[0]), "outputs that are no NumPy type are accepted")
            ctx.ob("returns", f"{mdl}.outputs", fine, ctx.where(fns[0]), "accepted outputs are changed")
    # a platform given as a dictionary becomes a checked Platform
    fns = attached(p, b, "LibeSpecs", "platform_specs")
    if ctx.ob("attached", "LibeSpecs.platform_specs", fns, b.m.path, "platform_specs given as a dictionary are not checked"):
        for isd in (True, False):
            def more(a, st, isd=isd):
                s = isinst(a)
                return isd if s is not None and s[0] == P("@platform") else None
            built = False
            for fn in fns:
                for k, st, t in outcomes(ctx, fn, value=P("@platform"), decide=more):
                    if k != "ok":
                        continue
                    new = t[0] == "new" and t[2] == f"obj:{PLAT}:Platform" or callname(t) in (PLAT + ":Platform", PLAT + ".Platform", ".model_validate") or \
                        t[0] == "call" and "Platform" in show(t[1])
                    built = built or new
                    if not isd:
                        ctx.ob("returns", "LibeSpecs.platform_specs object", t == P("@platform") or new, ctx.where(fn), "a Platform is replaced")
            if isd:
                ctx.ob("verdict", "LibeSpecs.platform_specs dictionary", built, ctx.where(fns[0]), "a dictionary is not turned into a checked Platform")


def model_rules(ctx, b):
    p = ctx.p
    for mdl, rows in model_tables().items():
        fns = attached(p, b, mdl)
        if not ctx.ob("attached", f"{mdl} rules", fns, b.m.path, f"no rule is attached to {mdl}"):
            continue
        for heap, ok, effects, note in rows:
            def more(a, st):
                t = a[1] if a[0] == "t" else a
                if mentions(t, lambda x: x == A(SELF, "H0")):     # no H0 given
                    try:
                        return cval_at(t, {A(A(SELF, "H0"), "size"): 0, ("len", A(SELF, "H0")): 0})
                    except ValueError:
                        return None
                s = isinst(a)
                if callname(t) in ("hasattr", "callable") or s is not None and not is_c(s[0]):
                    return True
                return None
            rejected, unsure, final = None, False, {}
            for fn in fns:
                o = outcomes(ctx, fn, heap=dict(heap), decide=rule_decide((), more))
                kinds = {k for k, *_ in o}
                if kinds == {"rejected"}:
                    rejected = fn
                elif len(kinds) != 1:
                    unsure = True
                for k, st, t in o:
                    if k == "ok":
                        ctx.ob("returns", f"{mdl} {fn.name}", t == SELF, ctx.where(fn), f"the rule returns {show(t)} and not the model it checked")
                        for key in effects:
                            v = at(st, key)
                            if v != heap.get(A(SELF, *key.split("."))):
                                final.setdefault(key, []).append((v, fn))
            if unsure and rejected is None:
                ctx.assumption(f"{mdl}: {note}: the rule's verdict depends on something the analysis does not decide")
                continue
            ctx.ob("verdict", f"{mdl} {note}", (rejected is None) == ok, ctx.where(rejected or fns[0]), f"{note}: {'rejected' if rejected is not None else 'accepted'}")
            if not ok:
                continue
            for key, want in effects.items():
                old = heap.get(A(SELF, *key.split(".")))
                got = final.get(key, [(old, fns[0])])
                for v, fn in got:
                    good = want(v) if callable(want) else v == want
                    ctx.ob("effect", f"{mdl} {note}: {key}", good, ctx.where(fn), f"{key} becomes {show(v) if v is not None else 'unset'}")


# ---------------------------------------------------------------- S02: history, user functions, defaults
def elem_shape(t):
    """What the elements of a term are: "name" (strings), "tuple" (field descriptions) or None."""
    n = callname(t)
    if n in ("list", "set", "sorted", "tuple", "frozenset") and t[2]:
        return elem_shape(t[2][0])
    if t[0] == "b" and t[1] == "+":
        return elem_shape(t[2]) or elem_shape(t[3])
    if t[0] in ("list", "tuple", "clist", "set"):
        s = {"tuple" if x[0] == "tuple" else "name" if is_c(x) and isinstance(x[2], str) else None for x in t[1]}
        return s.pop() if len(s) == 1 else None
    if t[0] == "a" and t[2] == "names":
        return "name"
    if t[0] == "comp":
        e = t[2]
        if e[0] == "i" and e[2] == C(0):
            return "name"
        if e[0] == "elem":
            return elem_shape(e[1])
    if t[0] == "copyof":
        return elem_shape(t[1])
    return None


def h0_rules(ctx, b):
    p = ctx.p
    fns = attached(p, b, "_EnsembleSpecs")
    H0 = A(SELF, "H0")
    names = A(H0, "dtype", "names")

    def run(fi, more):
        def dec(a, st):
            r = more(a)
            if r is not None:
                return r
            t = a[1] if a[0] == "t" else a
            if mentions(t, lambda x: x == H0):
                try:
                    return cval_at(t, {A(H0, "size"): 2, ("len", H0): 2})
                except (ValueError, TypeError):
                    return None
            return None
        res = ctx.engine(Sim(dec, raises=lambda e, s: False, relevant=lambda a: True, havoc=False, limit=4)).run(fi)
        return len(res["return"]), [exc_of(s) for s in res["raise"]]

    def base(a, inputs=True, ended=True, match=True, ndim=True, shape=True, known=True):
        """A valuation of what the history rule looks at."""
        t = a[1] if a[0] == "t" else a
        if t[0] == "all":
            if mentions(t, lambda x: x == C("sim_started")) and mentions(t, lambda x: x == C("sim_ended")):
                return match
            if mentions(t, lambda x: x[0] == "a" and x[2] == "shape"):
                return shape
        if t[0] == "cmp" and t[1] == "in":
            if t[2] == C("sim_ended"):
                return ended
            e = t[2][1] if t[2][0] == "elem" else None
            if e is not None and mentions(e, lambda x: x[0] == "a" and x[2] in ("inputs", "persis_in")):
                return inputs
            if e is not None and mentions(e, lambda x: x == names):
                return known and elem_shape(t[3]) != "tuple"        # a name never equals a field description
        if t[0] == "cmp" and t[1] == "==" and all(mentions(x, lambda y: y[0] == "a" and y[2] == "ndim") for x in (t[2], t[3])):
            return ndim
        if t[0] == "cmp" and t[1] == "==0" and mentions(t, lambda x: x[0] == "a" and x[2] == "ndim"):
            return ndim
        if callname(t) in ("hasattr", "callable") or isinst(a) is not None:
            return True
        if t[0] == "cmp" and t[1] in ("==", "is") and NONE in (t[2], t[3]):
            return mentions(t, lambda x: x[0] == "a" and x[2] == "stop_val")
        if t[0] == "cmp" and t[1] in ("==", "is") and mentions(t, lambda x: x[0] == "a" and x[2] == "__name__"):
            return False
        if a[0] == "t" and t[0] in ("a", "b") and mentions(t, lambda x: x[0] == "a" and x[2] in SPECNAMES):
            return True            # both specifications are given, with inputs and outputs
        return None
    cases = [("initial history, consistent", {}, True), ("initial history, a field a function expects is missing", {"inputs": False}, False),
             ("initial history, points given but not returned", {"match": False}, False), ("initial history, no record of returned points", {"ended": False, "match": False}, True),
             ("initial history, field of another dimension", {"ndim": False}, False), ("initial history, field too large", {"shape": False}, False)]
    for note, kw, ok in cases:
        rejected = None
        for fi in fns:
            n, ex = run(fi, lambda a: base(a, **kw))
            if ex:                 # a loop over the fields also has the path on which there are none, which accepts
                rejected = fi
                ctx.ob("error", note, all(x in ("AssertionError", "ValueError", "any") for x in ex), ctx.where(fi), f"refused by {ex}")
        ctx.ob("verdict", note, (rejected is None) == ok, ctx.where(rejected or fns[0]), f"{note}: {'rejected' if rejected else 'accepted'}")


def ufunc_rules(ctx, b):
    p = ctx.p
    fns = attached(p, b, "_EnsembleSpecs")
    for bad, ok, note in ((None, True, "callable user functions"), ("sim_f", False, "a simulation function that is not callable"), ("gen_f", False, "a generator function that is not callable")):
        def more(a, st):
            t = a[1] if a[0] == "t" else a
            s = isinst(a)
            subj = s[0] if s is not None else t[2][0] if callname(t) in ("callable", "hasattr") and t[2] else None
            if callname(t) == "hasattr":
                return True
            if subj is not None:
                return not (bad and subj[0] == "a" and subj[2] == bad)
            if t[0] == "cmp" and t[1] in ("==", "is") and mentions(t, lambda x: x[0] == "a" and x[2] == "__name__"):
                return False
            if t[0] == "cmp" and t[1] in ("==", "is") and NONE in (t[2], t[3]):
                return mentions(t, lambda x: x[0] == "a" and x[2] == "stop_val")
            if mentions(t, lambda x: x == A(SELF, "H0")):
                try:
                    return cval_at(t, {A(SELF, "H0", "size"): 0, ("len", A(SELF, "H0")): 0})
                except (ValueError, TypeError):
                    return None
            return None
        rejected = [fi for fi in fns if {k for k, *_ in outcomes(ctx, fi, decide=rule_decide((), more))} == {"rejected"}]
        ctx.ob("verdict", note, (not rejected) == ok, ctx.where((rejected or fns)[0]), f"{note}: {'rejected' if rejected else 'accepted'}")


def attr_rules(ctx, b):
    """inputs / outputs / persis_in taken from the user function's attributes when not given, and only then."""
    p = ctx.p
    for mdl, f in (("SimSpecs", "sim_f"), ("GenSpecs", "gen_f")):
        fns = attached(p, b, mdl)
        for given in (False, True):
            own = {x: ("list", (C("own"),)) if given else ("list", ()) for x in ("inputs", "outputs", "persis_in")}
            heap = opt(*own.items(), ("generator", NONE))
            final = {x: {own[x]} for x in own}

            def more(a, st):
                t = a[1] if a[0] == "t" else a
                return True if callname(t) == "hasattr" else None
            for fi in fns:
                o = outcomes(ctx, fi, heap=dict(heap), decide=rule_decide((), more))
                for x in own:
                    vs = {at(st, x) for k, st, t in o if k == "ok"}
                    if vs and vs != {own[x]}:
                        final[x] = vs
            for x in own:
                want = {own[x]} if given else {A(SELF, f, x)}
                note = f"{mdl}.{x} {'given' if given else 'not given, the user function says'}"
                ctx.ob("effect", note, final[x] == want, b.m.path, f"{x} becomes {sorted(show(v) if v else 'unset' for v in final[x])}")


def comms_rule(ctx, b):
    p = ctx.p
    fns = attached(p, b, "LibeSpecs", mode="before")
    if not ctx.ob("attached", "LibeSpecs default communication mode", fns, b.m.path, "no rule chooses the communication mode when none is given"):
        return
    V = P("@values")
    key = ("i", V, C("comms"))
    for has, nw, env in ((True, None, None), (False, True, True), (False, True, False), (False, False, None)):
        got = set()
        for fi in fns:
            def dec(a, st):
                t = a[1] if a[0] == "t" else a
                if t[0] == "cmp" and t[1] == "in" and t[3] == V:
                    return has if t[2] == C("comms") else nw if t[2] == C("nworkers") else None
                if t[0] == "cmp" and t[1] in ("==", "is") and NONE in (t[2], t[3]):
                    if mentions(t, lambda x: x == ("i", V, C("nworkers"))):
                        return not nw
                    if mentions(t, lambda x: callname(x) in ("os.getenv", "os.environ.get", ".get")):
                        return not env
                if t[0] == "cmp" and mentions(t, lambda x: callname(x) == "int"):
                    return t[1] == "<0" and env
                return None
            args = {fi.params[-1]: V}
            res = ctx.engine(Sim(dec, raises=lambda e, s: False, relevant=lambda a: True, havoc=False)).run(fi, args=args)
            for st, t in res["return"]:
                ctx.ob("returns", f"LibeSpecs {fi.name}", t == V or t[0] == "new" or mentions(t, lambda x: x == V), ctx.where(fi), f"returns {show(t)}")
                got.add(st.heap.get(key, "kept"))
        note = "given" if has else "not given, %s" % ("no number of workers" if not nw else "under an MPI launcher" if env else "number of workers")
        for v in got:
            ok = v == "kept" if has else is_c(v) and v[2] in COMMS and (nw and not env or v[2] == "mpi") and (env is not False or v[2] == "local")
            ctx.ob("effect", f"LibeSpecs.comms {note}", ok, ctx.where(fns[0]), f"comms becomes {v if isinstance(v, str) else show(v)}")


# ---------------------------------------------------------------- S02: the entry points
SPECNAMES = ("sim_specs", "gen_specs", "exit_criteria", "libE_specs", "alloc_specs")


def entry_rules(ctx, b):
    p = ctx.p
    fi = p.funcs.get(LIB + "libE:libE")
    if fi is None:
        raise AnalysisBroken("libE() not found")
    decs = [ast.unparse(d.func if isinstance(d, ast.Call) else d).split(".")[-1] for d in fi.node.decorator_list]

    def is_vc(n, m, depth=0):
        if n == "validate_call":
            return True
        imp = m.imports.get(n)
        if imp and imp[0] != "mod" and depth < 4:
            if imp[2] == "validate_call":
                return True
            mm = p.modules.get(imp[1])
            return mm is not None and is_vc(imp[2], mm, depth + 1)
        return False
    ctx.ob("entry", "libE checks its arguments", any(is_vc(d, fi.module) for d in decs), ctx.where(fi), "libE() is not wrapped by the argument validation")
    imp = Imports(p, b)
    n = 0
    for m, st, name, asname, ok in imp.bound:
        for node, what in evaluated_uses(m, asname):
            n += 1
            ctx.ob("same-model", f"{m.name}:{asname} {what}", ok, f"{m.path}:{node.lineno}", f"{m.name} {what} the {name} imported on line {st.lineno}, before its validation rules are attached")
    ctx.floor("uses of the models in validated positions", n, 6)
    ann = {a.arg: a.annotation for a in fi.node.args.args}
    for s, mdl in SEEDS.items():
        if s in ann:
            names = {x.id for x in ast.walk(ann[s]) if isinstance(x, ast.Name)} if ann[s] is not None else set()
            ctx.ob("entry", f"libE {s}", any((fi.module.imports.get(x) or (0, 0, x))[-1] == mdl for x in names), ctx.where(fi), f"{s} is not checked as {mdl}")

    routines = {}

    def label(ev, st):
        if ev.kind != "call":
            return None
        c = str(ev.callee)
        if c.endswith(":_EnsembleSpecs") or ev.name == "_EnsembleSpecs":
            return ("checked", tuple(sorted((k, v) for k, v in ev.kw.items())))
        if ev.name in ("exit", "_exit") and c.startswith(("sys", "os", "exit")):
            return ("exit",)
        if ev.name == "init_resources":
            return ("resources",)
        if ev.name == "add_platform_info":
            return ("executor",)
        g = p.funcs.get(c)
        if g is not None and g.module is fi.module and g is not fi:
            a = args_of(ev, g)
            routines.setdefault(g.qual, g)
            return ("mode", g.qual, tuple(sorted((k, v) for k, v in a.items() if isinstance(v, tuple))))
        return None

    def routine(g):
        return g.module is fi.module and "libE_specs" in g.params and g is not fi
    for comms in COMMS:
        for dry in (False, True):
            def value(t):
                k = t[2] if t[0] == "i" else C(t[2]) if t[0] == "a" else None
                return C(comms) if k == C("comms") else (TRUE if dry else FALSE) if k == C("dry_run") else None

            def dec(a, st):
                t = a[1] if a[0] == "t" else a
                return True if t[0] == "cmp" and t[1] == "in" and t[2] in (C("comms"), C("dry_run")) else None
            sim = Sim(dec, label=label, value=value, inline=lambda g: g.module is fi.module and not routine(g), raises=lambda ev, st: ["SystemExit"] if ev.name == "exit" else False,
                      result=lambda ev, st: [] if ev.name == "exit" else None, relevant=lambda a: True, havoc=False, limit=20)
            res = ctx.engine(sim).run(fi)
            ends = [("return", s) for s, _ in res["return"]] + [(exc_of(s), s) for s in res["raise"]]
            ctx.ob("dispatch", f"libE {comms}{' dry run' if dry else ''} ends", ends, ctx.where(fi), "no path through libE() completes")
            for how, st in ends:
                rs = st.rs or ()
                kinds = [r[0] for r in rs]
                first = kinds.index("checked") if "checked" in kinds else None
                acts = [i for i, k in enumerate(kinds) if k != "checked"]
                ctx.ob("validated-first", f"libE {comms}{' dry run' if dry else ''}", first is not None and all(i > first for i in acts), ctx.where(fi), f"order of actions: {kinds}")
                if dry:
                    ctx.ob("dry-run", f"libE {comms}", not set(kinds) & {"resources", "mode"}, ctx.where(fi), f"a dry run goes on to: {kinds}")
                    continue
                modes = [r for r in rs if r[0] == "mode" and routine(p.funcs[r[1]])]
                if how == "return":
                    ctx.ob("dispatch", f"libE {comms}", len(modes) == 1, ctx.where(fi), f"the main routine called for this mode: {[m[1] for m in modes]}")
                elif how not in ("SystemExit", "any"):
                    ctx.ob("dispatch", f"libE {comms}", False, ctx.where(fi), f"libE() raises {how}")
                if first is not None:
                    kw = dict(rs[first][1])
                    for s in SPECNAMES + ("H0",):
                        ctx.ob("entry", f"libE checks {s}", s in kw and (s == "H0" or kw[s] == P(s)), ctx.where(fi), f"the ensemble is checked with {s}={show(kw[s]) if s in kw else 'its default'}")
                for m in modes:
                    got = dict(m[2])
                    for s in SPECNAMES:
                        if s in got:
                            ctx.ob("entry", f"libE runs with checked {s}", mentions(got[s], lambda x: x[0] == "a" and x[2] == s and x[1][0] == "new"), ctx.where(fi), f"the main routine gets {show(got[s])[:120]}")


def ensemble_rules(ctx, b):
    """Ensemble: what ends up in _libE_specs went through the LibeSpecs model."""
    p = ctx.p
    cls = p.cls(LIB + "ensemble:Ensemble")
    LS = A(SELF, "_libE_specs")
    new = f"obj:{SPECS}:LibeSpecs"
    n = 0

    def built(t):
        if t is None:
            return False
        if t[0] == "new" and t[2] == new or callname(t) in (SPECS + ":LibeSpecs", ".model_validate"):
            return True
        if t[0] == "a" and t[2] == "__dict__":
            return built(t[1])
        if callname(t) in ("specs_dump", LIB + "utils.misc:specs_dump", ".model_dump", "dict", "vars") and t[2]:
            return built(t[2][0])
        if t[0] == "i" or callname(t) in (".copy", ".items", ".model_copy"):
            return built(t[1] if t[0] == "i" else t[2][0])
        if t[0] == "elem":
            return built(t[1])
        return False
    entries = [fi for fi in p.funcs.values() if fi.cls is not None and fi.cls.qual == cls.qual and not fi.is_static]
    for fi in entries:
        for isd in (True, False):
            for have in (True, False):
                def dec(a, st):
                    s = isinst(a)
                    t = a[1] if a[0] == "t" else a
                    if s is not None and s[0][0] == "p" and any(x.split(".")[-1] == "dict" for x in s[1]):
                        return isd
                    if callname(t) == "hasattr" and t[2] and t[2][0] == SELF or t == LS:
                        return have
                    return None
                seen = []

                def label(ev, st):
                    if ev.kind == "store" and ev.loc == LS:
                        seen.append((ev.value, ev, "assign"))
                    elif ev.kind == "store" and ev.loc is not None and ev.loc[0] == "i" and ev.loc[1] == A(LS, "__dict__"):
                        seen.append((ev.value, ev, "key"))
                    elif ev.kind == "call" and ev.name in ("update", "__setitem__", "setdefault") and ev.base == A(LS, "__dict__"):
                        seen.append((ev.args[0] if ev.args else ev.kw.get("**"), ev, "update"))
                    elif ev.kind == "store" and ev.loc is not None and ev.loc[0] == "a" and ev.loc[1] == LS:
                        seen.append((None, ev, "attribute"))
                    return None
                res = ctx.engine(Sim(dec, label=label, inline=lambda g: g.cls is not None and g.cls.qual == cls.qual and g is not fi, raises=lambda e, s: False, havoc=False)).run(fi)
                for v, ev, how in seen:
                    n += 1
                    con = f"Ensemble.{fi.name} {how}"
                    if how == "attribute":       # checked on assignment (S01: strict)
                        continue
                    if how == "assign":
                        given = v is not None and v[0] == "p" and (not isd or fi.name == "__init__")
                        ctx.ob("checked-later", con, built(v) or given or v is not None and v[0] in ("ite", "or"), ev.where(), f"_libE_specs becomes {show(v)[:100]} without being checked")
                    else:
                        ctx.ob("checked-later", con, built(v), ev.where(), f"_libE_specs takes over {show(v)[:100] if v else 'options'} without a check")
    ctx.floor("writes of an ensemble's libE_specs", n, 8)
    run = p.method(cls, "run")
    lib = LIB + "libE:libE"
    m = 0
    res = ctx.engine(Sim(label=lambda ev, st: ("run", tuple(sorted(args_of(ev, p.funcs[lib]).items(), key=str))) if ev.kind == "call" and ev.callee == lib else None,
                         inline=lambda g: g.cls is not None and g.cls.qual == cls.qual, raises=lambda e, s: False, havoc=False)).run(run)
    for st, _ in res["return"]:
        for r in st.rs or ():
            m += 1
            got = dict(r[1])
            for s in SPECNAMES + ("persis_info", "H0"):
                want = LS if s == "libE_specs" else A(SELF, s)
                ctx.ob("entry", f"Ensemble.run {s}", got.get(s) == want, ctx.where(run), f"libE() gets {s}={show(got[s]) if s in got else 'its default'}")
    ctx.ob("entry", "Ensemble.run", m, ctx.where(run), "run() does not call libE()")


@check("S02", "interpretation of the model bindings and the package's import order, exhaustive tables of every validation rule over accepted and rejected values (abstract interpretation), ordered-effect analysis of libE() and of every write of an ensemble's options")
def s02(ctx):
    p = ctx.p
    b = bindings(ctx)
    ctx.rule("attached", "every validation rule is attached to its model")
    ctx.rule("returns", "an accepted value or model is passed on")
    ctx.rule("error", "a refusal is a validation error")
    ctx.rule("verdict", "the attached rules accept what is allowed and refuse what is not")
    ctx.rule("effect", "the attached rules fill in the options they derive, and change nothing that was given")
    ctx.rule("same-model", "a model used to build or check options is the one its rules are attached to")
    ctx.rule("entry", "libE() checks every specification, and works on the checked ones")
    ctx.rule("validated-first", "nothing is set up or run before the ensemble has been checked")
    ctx.rule("dry-run", "a dry run stops after the checks: no resources, no workers")
    ctx.rule("dispatch", "every communication mode has exactly one main routine")
    ctx.rule("checked-later", "options given to an existing ensemble are checked")
    # every validator of the package is attached to some model
    used = {(v[1], v[2]) for d in b.created.values() for v in d["validators"].values() if v[0] == "name"}
    n = 0
    for m in p.modules.values():
        for st in m.tree.body:
            names = [st.name] if isinstance(st, ast.FunctionDef) else [t.id for t in st.targets if isinstance(t, ast.Name)] if isinstance(st, ast.Assign) else []
            for x in names:
                if validator_info(p, ("name", m.name, x)) is not None:
                    n += 1
                    ctx.ob("attached", f"{m.name}:{x}", (m.name, x) in used, f"{m.path}:{st.lineno}", "this validation rule is attached to no model")
    ctx.floor("validation rules", n, 15)
    for mdl in ("SimSpecs", "GenSpecs", "LibeSpecs", "_EnsembleSpecs", "Platform"):
        ctx.ob("attached", mdl, mdl in b.created, b.m.path, f"{mdl} is not replaced by a model with rules")
    field_rules(ctx, b)
    model_rules(ctx, b)
    h0_rules(ctx, b)
    ufunc_rules(ctx, b)
    attr_rules(ctx, b)
    comms_rule(ctx, b)
    entry_rules(ctx, b)
    ensemble_rules(ctx, b)
