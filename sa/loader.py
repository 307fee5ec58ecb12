"""Parses libensemble and resolves names, classes, methods and constants (stdlib ast only; nothing is imported)."""
import ast
import hashlib
import os


class AnalysisBroken(Exception):
    """An anchor the analysis depends on is gone: neither a pass nor a violation."""


class FuncInfo:
    __slots__ = ("qual", "name", "node", "module", "cls", "parent", "is_static", "is_class", "is_property")

    def __init__(self, qual, node, module, cls=None, parent=None):
        self.qual, self.name, self.node, self.module, self.cls, self.parent = qual, node.name, node, module, cls, parent
        decs = [ast.unparse(d) for d in node.decorator_list]
        self.is_static = "staticmethod" in decs
        self.is_class = "classmethod" in decs
        self.is_property = "property" in decs or any(d.endswith("cached_property") for d in decs)

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def __repr__(self):
        return f"<Func {self.qual}>"


class ClassInfo:
    def __init__(self, qual, node, module):
        self.qual, self.name, self.node, self.module = qual, node.name, node, module
        self.methods = {}
        self.consts = {}
        self.attr_types = {}   # attr -> set of class quals
        self.ann = {}

    def __repr__(self):
        return f"<Class {self.qual}>"


class Module:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.funcs, self.classes, self.imports, self.assigns = {}, {}, {}, {}


def _walk_no_nested(body):
    """Statements of a body, entering compound statements but not nested defs."""
    for st in body:
        yield st
        for f in ("body", "orelse", "finalbody"):
            sub = getattr(st, f, None)
            if sub and not isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                yield from _walk_no_nested(sub)
        for h in getattr(st, "handlers", []):
            yield from _walk_no_nested(h.body)


class Project:
    def __init__(self, root="/repo", pkg="libensemble"):
        self.root, self.pkg = root, pkg
        self.modules, self.funcs, self.classes = {}, {}, {}
        self.sha = hashlib.sha256()
        self.files = 0
        base = os.path.join(root, pkg)
        if not os.path.isdir(base):
            raise AnalysisBroken(f"no package at {base}")
        for d, dirs, files in os.walk(base):
            dirs[:] = sorted(x for x in dirs if x not in ("tests", "__pycache__", "tests_private"))
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, root)
                src = open(path, encoding="utf-8").read()
                self.sha.update(rel.encode() + b"\0" + src.encode())
                name = rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[:-9]
                try:
                    tree = ast.parse(src, rel)
                except SyntaxError as e:
                    raise AnalysisBroken(f"cannot parse {rel}: {e}")
                self.modules[name] = Module(name, rel, tree, src)
                self.files += 1
        for m in self.modules.values():
            self._index(m)
        for c in list(self.classes.values()):
            self._attr_types(c)
        self._subs = None

    # ------------------------------------------------------------ indexing
    def _index(self, m):
        for st in _walk_no_nested(m.tree.body):
            if isinstance(st, ast.FunctionDef):
                fi = FuncInfo(f"{m.name}:{st.name}", st, m)
                m.funcs[st.name] = fi
                self.funcs[fi.qual] = fi
                self._nested(fi)
            elif isinstance(st, ast.ClassDef):
                self._index_class(m, st, "")
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        m.imports[a.asname] = ("mod", a.name)
                    else:
                        m.imports[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom):
                src = st.module or ""
                if st.level:
                    parts = m.name.split(".")
                    if not m.path.endswith("__init__.py"):
                        parts = parts[:-1]
                    parts = parts[: len(parts) - (st.level - 1)]
                    src = ".".join(parts + ([src] if src else []))
                for a in st.names:
                    m.imports[a.asname or a.name] = ("sym", src, a.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        m.assigns[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                m.assigns[st.target.id] = st.value

    def _index_class(self, m, node, prefix):
        q = f"{m.name}:{prefix}{node.name}"
        ci = ClassInfo(q, node, m)
        self.classes[q] = ci
        m.classes[prefix + node.name] = ci
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                fi = FuncInfo(f"{q}.{st.name}", st, m, ci)
                ci.methods[st.name] = fi
                self.funcs[fi.qual] = fi
                self._nested(fi)
            elif isinstance(st, ast.ClassDef):
                self._index_class(m, st, f"{prefix}{node.name}.")
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        ci.consts[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                ci.ann[st.target.id] = st.annotation
                if st.value is not None:
                    ci.consts[st.target.id] = st.value

    def _nested(self, fi):
        for st in _walk_no_nested(fi.node.body):
            if isinstance(st, ast.FunctionDef):
                sub = FuncInfo(f"{fi.qual}.<locals>.{st.name}", st, fi.module, fi.cls, fi)
                self.funcs[sub.qual] = sub
                self._nested(sub)

    # ------------------------------------------------------------ names
    def resolve(self, m, name, _depth=0):
        """-> ('fn', FuncInfo) | ('cls', ClassInfo) | ('const', ast expr, Module) | ('g', dotted) | None"""
        if name in m.funcs:
            return ("fn", m.funcs[name])
        if name in m.classes:
            return ("cls", m.classes[name])
        if name in m.assigns:
            return ("const", m.assigns[name], m)
        if name in m.imports:
            imp = m.imports[name]
            if imp[0] == "mod":
                return ("g", imp[1])
            return self.resolve_dotted(imp[1], imp[2], _depth + 1)
        return None

    def resolve_dotted(self, modname, sym, _depth=0):
        if _depth > 8:
            return None
        if modname in self.modules:
            r = self.resolve(self.modules[modname], sym, _depth + 1)
            if r is not None:
                return r
        full = f"{modname}.{sym}"
        if full in self.modules:
            return ("g", full)
        return ("g", full)

    def cls_of_expr(self, m, node):
        """ClassInfo named by an expression (annotation or constructor), or None."""
        if isinstance(node, ast.Constant) and isinstance(node.value, str):
            try:
                node = ast.parse(node.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(node, ast.BinOp):  # X | None
            return self.cls_of_expr(m, node.left) or self.cls_of_expr(m, node.right)
        if isinstance(node, ast.Name):
            r = self.resolve(m, node.id)
            if r and r[0] == "cls":
                return r[1]
        if isinstance(node, ast.Attribute):
            b = self.cls_of_expr(m, node.value)
            if b is not None:
                return self.classes.get(f"{b.qual}.{node.attr}")
            if isinstance(node.value, ast.Name):
                r = self.resolve(m, node.value.id)
                if r and r[0] == "g" and r[1] in self.modules:
                    return self.modules[r[1]].classes.get(node.attr)
        return None

    def _attr_types(self, c):
        for meth in c.methods.values():
            ann = {}
            for a in meth.node.args.posonlyargs + meth.node.args.args + meth.node.args.kwonlyargs:
                if a.annotation is not None:
                    k = self.cls_of_expr(c.module, a.annotation)
                    if k:
                        ann[a.arg] = k
            for st in _walk_no_nested(meth.node.body):
                if isinstance(st, (ast.Assign, ast.AnnAssign)) and st.value is not None:
                    tgts = st.targets if isinstance(st, ast.Assign) else [st.target]
                    for t in tgts:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                            k = None
                            if isinstance(st.value, ast.Call):
                                k = self.cls_of_expr(c.module, st.value.func)
                            elif isinstance(st.value, ast.Name):
                                k = ann.get(st.value.id)
                            if k:
                                c.attr_types.setdefault(t.attr, set()).add(k.qual)
        for st in c.node.body:
            if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                k = self.cls_of_expr(c.module, st.annotation)
                if k:
                    c.attr_types.setdefault(st.target.id, set()).add(k.qual)

    # ------------------------------------------------------------ hierarchy
    def bases(self, c):
        out = []
        for b in c.node.bases:
            k = self.cls_of_expr(c.module, b)
            if k:
                out.append(k)
        return out

    def mro(self, c):
        seen, todo = [], [c]
        while todo:
            x = todo.pop(0)
            if x not in seen:
                seen.append(x)
                todo += self.bases(x)
        return seen

    def subclasses(self, c):
        return [k for k in self.classes.values() if c in self.mro(k)]

    def method(self, c, name):
        for k in self.mro(c):
            if name in k.methods:
                return k.methods[name]
        return None

    def cls_const(self, c, name):
        for k in self.mro(c):
            if name in k.consts:
                return k.consts[name], k.module
        return None

    def attr_type(self, c, name):
        for k in self.mro(c):
            if name in k.attr_types:
                return k.attr_types[name]
        return set()

    def base_names(self, c):
        """All base class names, in-repo or not (last component)."""
        out = set()
        for k in self.mro(c):
            out.add(k.name)
            for b in k.node.bases:
                out.add(ast.unparse(b).split(".")[-1])
        return out

    # ------------------------------------------------------------ effects
    def write_keys(self, fi):
        """Names of attributes and constant keys a function may store to, calls included (by name, over-approximate)."""
        if not hasattr(self, "_wk"):
            self._wk, self._byname = {}, {}
            for f in self.funcs.values():
                if f.parent is None:
                    self._byname.setdefault(f.name, []).append(f)
        if fi.qual in self._wk:
            return self._wk[fi.qual]
        seen, todo, keys = set(), [fi], set()
        while todo:
            f = todo.pop()
            if f.qual in seen:
                continue
            seen.add(f.qual)
            k, calls = self._direct(f)
            keys |= k
            for c in calls:
                if c in ("get", "append", "copy", "update", "items", "format", "join", "pop", "start", "close", "debug", "info"):
                    continue
                todo += [g for g in self._byname.get(c, []) if (g.cls is not None) or g.module is f.module or c in f.module.imports]
        self._wk[fi.qual] = frozenset(keys)
        return self._wk[fi.qual]

    def _direct(self, f):
        if not hasattr(self, "_dir"):
            self._dir = {}
        if f.qual in self._dir:
            return self._dir[f.qual]
        keys, calls = set(), set()

        def tgt(t):
            if isinstance(t, (ast.Tuple, ast.List)):
                for x in t.elts:
                    tgt(x)
            elif isinstance(t, ast.Starred):
                tgt(t.value)
            elif isinstance(t, ast.Attribute):
                keys.add(t.attr)
            elif isinstance(t, ast.Subscript):
                b = t
                got = False
                while isinstance(b, ast.Subscript):
                    if isinstance(b.slice, ast.Constant) and isinstance(b.slice.value, str):
                        keys.add(b.slice.value)
                        got = True
                    b = b.value
                if isinstance(b, ast.Attribute) and not got:
                    keys.add(b.attr)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    tgt(t)
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                tgt(n.target)
            elif isinstance(n, ast.Delete):
                for t in n.targets:
                    tgt(t)
            elif isinstance(n, ast.Call):
                g = n.func
                if isinstance(g, ast.Attribute):
                    calls.add(g.attr)
                    if g.attr in ("append", "remove", "add", "discard", "pop", "update", "clear", "extend", "insert", "setdefault", "sort", "popitem"):
                        b = g.value
                        if isinstance(b, ast.Attribute):
                            keys.add(b.attr)
                        if isinstance(b, ast.Subscript) and isinstance(b.slice, ast.Constant) and isinstance(b.slice.value, str):
                            keys.add(b.slice.value)
                elif isinstance(g, ast.Name):
                    calls.add(g.id)
        self._dir[f.qual] = (keys, calls)
        return keys, calls

    # ------------------------------------------------------------ anchors
    def func(self, qual):
        if qual not in self.funcs:
            raise AnalysisBroken(f"function {qual} not found")
        return self.funcs[qual]

    def cls(self, qual):
        if qual not in self.classes:
            raise AnalysisBroken(f"class {qual} not found")
        return self.classes[qual]

    def meth(self, clsqual, name):
        f = self.method(self.cls(clsqual), name)
        if f is None:
            raise AnalysisBroken(f"method {clsqual}.{name} not found")
        return f

    def module(self, name):
        if name not in self.modules:
            raise AnalysisBroken(f"module {name} not found")
        return self.modules[name]

    # ------------------------------------------------------------ constants
    def const(self, m, node, depth=0):
        """Evaluate a constant expression to a Python value; raises ValueError when not constant."""
        if depth > 20:
            raise ValueError
        ev = lambda n: self.const(m, n, depth + 1)
        if isinstance(node, ast.Constant):
            return node.value
        if isinstance(node, ast.Tuple):
            return tuple(ev(x) for x in node.elts)
        if isinstance(node, ast.List):
            return [ev(x) for x in node.elts]
        if isinstance(node, ast.Set):
            return {ev(x) for x in node.elts}
        if isinstance(node, ast.Dict):
            if any(k is None for k in node.keys):
                raise ValueError
            return {ev(k): ev(v) for k, v in zip(node.keys, node.values)}
        if isinstance(node, ast.Name):
            if node.id in ("int", "float", "bool", "str", "list", "dict", "tuple", "set", "object"):
                return ("type", node.id)
            r = self.resolve(m, node.id)
            if r and r[0] == "const":
                return self.const(r[2], r[1], depth + 1)
            if r and r[0] == "fn":
                return ("fn", r[1].qual)
            if r and r[0] == "cls":
                return ("cls", r[1].qual)
            raise ValueError
        if isinstance(node, ast.Attribute):
            if isinstance(node.value, ast.Name):
                r = self.resolve(m, node.value.id)
                if r and r[0] == "g" and r[1] in self.modules:
                    mm = self.modules[r[1]]
                    if node.attr in mm.assigns:
                        return self.const(mm, mm.assigns[node.attr], depth + 1)
                if r and r[0] == "cls":
                    cc = self.cls_const(r[1], node.attr)
                    if cc:
                        return self.const(cc[1], cc[0], depth + 1)
            raise ValueError
        if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Add):
            return ev(node.left) + ev(node.right)
        if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Mult):
            return ev(node.left) * ev(node.right)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
            return -ev(node.operand)
        if isinstance(node, ast.Call):
            f = node.func
            if isinstance(f, ast.Attribute) and f.attr == "split" and not node.keywords:
                v = ev(f.value)
                return v.split(*[ev(a) for a in node.args])
            if isinstance(f, ast.Attribute) and f.attr in ("keys", "values") and not node.args:
                return list(getattr(ev(f.value), f.attr)())
            if isinstance(f, ast.Name) and f.id in ("list", "tuple", "set", "frozenset", "dict", "sorted") and len(node.args) <= 1:
                import builtins
                args = [ev(a) for a in node.args]
                kw = {k.arg: ev(k.value) for k in node.keywords if k.arg}
                return getattr(builtins, f.id)(*args, **kw)
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "dict" and f.attr == "fromkeys":
                return dict.fromkeys(*[ev(a) for a in node.args])
        if isinstance(node, ast.IfExp):
            raise ValueError
        raise ValueError(ast.dump(node)[:60])
