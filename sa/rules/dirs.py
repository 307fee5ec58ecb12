"""Working directories and output directories (W04, W05)."""
import ast

from . import check
from .common import *  # noqa
from .comms import Sim, exc_of
from .worker import WK, WORK, calc_handler, key_decide, run_scenarios, worker_types

LS = LIB + "utils.loc_stack:LocationStack"
ED = LIB + "utils.output_directory:EnsembleDirectory"
CWD0, UDIR, CALCDIR = P("@cwd0"), P("@userdir"), P("@calcdir")
CHDIR = ("os.chdir", "os.fchdir", "contextlib.chdir")
GETCWD = ("os.getcwd", "pathlib.Path.cwd", "os.getcwdb")


def gname(ev):
    t = ev.extra
    return t[1] if t is not None and t[0] == "g" else None


class Cwd(Sim):
    """Tracks the process working directory: chdir sets it, getcwd reads it; lists used as stacks are followed."""

    def __init__(self, **kw):
        super().__init__(limit=40, **kw)
        self.sites = set()

    @staticmethod
    def cur(st):
        for x in reversed(st.rs or ()):
            if x[0] == "cd":
                return x[1]
        return CWD0

    def resolve(self, t, st):
        """Value of the t-th pop of a list."""
        for x in st.rs or ():
            if x[0] == "popped" and x[1] == t:
                return x[2]
        return t

    def oracle(self, atom, st, eng):
        x = atom[1] if atom[0] == "t" else (atom[2] if atom[0] == "cmp" and atom[1] == "==" and atom[3] == NONE else None)
        if x is not None:
            v = self.resolve(x, st)
            if v == NONE:
                return atom[0] != "t"
            if v in (CWD0, UDIR, CALCDIR):
                return atom[0] == "t"
        return super().oracle(atom, st, eng)

    def call_value(self, ev, st, eng):
        n = gname(ev)
        if n in GETCWD or ev.name in ("cwd", "getcwd"):
            return self.cur(st)
        return super().call_value(ev, st, eng)

    def on_event(self, ev, st, eng):
        rs = st.rs or ()
        if ev.kind == "callret" and ev.name in ("chdir", "fchdir"):
            self.sites.add((ev.mod.name, ev.line))
            if len(rs) < self.limit:
                st.rs = rs + (("cd", self.resolve(ev.args[0], st) if ev.args else NONE),)
            return
        if ev.kind == "mutate" and ev.name in ("append", "pop") and ev.base is not None and len(rs) < self.limit:
            stack = [x for x in rs if x[0] == "stack" and x[1] == ev.base]
            cont = list(stack[-1][2]) if stack else []
            if ev.name == "append" and len(ev.args) == 1:
                st.rs = rs + (("stack", ev.base, tuple(cont + [ev.args[0]])),)
            elif not ev.args or ev.args == [C(-1)]:
                t = ("call", ("method", "pop"), (ev.base,) + tuple(ev.args), (), eng.site(ev.node))
                v = cont.pop() if cont else P("@empty-stack")
                st.rs = rs + (("stack", ev.base, tuple(cont)), ("popped", t, v))
            return
        super().on_event(ev, st, eng)


@check("W04", "typestate of the process working directory (chdir/getcwd/saved-location stack) through the context manager, over every exit of a calculation and of the worker; census of directory changes in the package")
def w04(ctx):
    p = ctx.p
    ctx.rule("in-directory", "a calculation with a directory of its own runs in that directory")
    ctx.rule("restored", "on every exit of a calculation, returning or raising, the process is back in the directory it was in before, whatever the user function changed")
    ctx.rule("worker-restored", "a worker runs in the workflow directory and ends in the directory it started in, also after an error")
    ctx.rule("not-swallowed", "an exception passes through the directory handling unchanged")
    ctx.rule("no-other", "no other code of the package changes the process working directory")
    f = calc_handler(p)
    ls = P("@ls")
    sites = set()
    n = 0
    for useful in (True, False):
        for fails in (None, "ValueError", "KeyboardInterrupt"):
            def d(atom, st):
                x = atom[1] if atom[0] == "t" else (atom[2] if atom[0] == "cmp" and atom[1] == "==" and atom[3] == NONE else None)
                if x is not None and callname(x) == ".use_calc_dirs" or x is not None and x[0] == "call" and x[1][0] in ("fn", "bound") and "use_calc_dirs" in str(x[1]):
                    return useful
                if x is not None and x == I(A(ls, "dirs"), P("@key")):
                    return atom[0] == "t"
                if atom == ("cmp", "in", P("@key"), A(ls, "dirs")):
                    return True
                if x is not None and contains_attr_(x, "recv_buffer"):
                    return False if atom[0] == "t" else True
                return None

            def iscalc(ev):
                return ev.extra is not None and ev.base is None and any(x[0] == "a" and x[2] == "runners" for x in subterms(ev.extra))

            def result(ev, st):
                if iscalc(ev):
                    return [] if fails else P("@res")
                if ev.name == "prep_calc_dir":
                    return ("tuple", (ls, P("@key")))
                if ev.name == "use_calc_dirs":
                    return C(useful)

            def lab(ev, st):
                if ev.kind == "call" and iscalc(ev):
                    return ("calc", Cwd.cur(st))
                if ev.kind == "swallow":
                    return ("swallow", str(ev.name))
            rule = Cwd(decide=d, raises=lambda ev, st: [fails] if fails and iscalc(ev) else False, result=result, label=lab,
                       value=lambda t: CALCDIR if t == I(A(ls, "dirs"), P("@key")) else None,
                       inline=lambda g: g.name not in ("use_calc_dirs", "prep_calc_dir", "new_tasks_timing", "extract_H_ranges", "recv", "push_to_buffer", "_extract_debug_data", "_get_calc_msg"))
            inner = rule.on_event

            def on_event(ev, st, eng, inner=inner, rule=rule):
                inner(ev, st, eng)
                if ev.kind == "call" and iscalc(ev):       # the user function may go anywhere
                    st.rs = (st.rs or ()) + ((("cd", UDIR),) if useful else ())
            rule.on_event = on_event
            res = ctx.engine(rule, types={**worker_types(p), ls: {LS}}).run(f, args={f.params[1]: WORK})
            sites |= rule.sites
            con = f"own directory={useful} user function {'raises ' + fails if fails else 'returns'}"
            for how, st in [("return", s) for s, _ in res["return"]] + [("raise", s) for s in res["raise"]]:
                rs = st.rs or ()
                calc = [x for x in rs if x[0] == "calc"]
                if not calc:
                    ctx.ob("in-directory", con, False, ctx.where(f), "the user function is not run on some path")
                    continue
                n += 1
                ctx.ob("in-directory", con, calc[0][1] == (CALCDIR if useful else CWD0), ctx.where(f), f"the user function runs in {show(calc[0][1])}")
                cur = Cwd.cur(st)
                ctx.ob("restored", con, cur == CWD0, ctx.where(f), f"the calculation ends in {show(cur)[:80]}")
                ctx.ob("not-swallowed", con, (how == "raise") == bool(fails) and (not fails or exc_of(st) == fails), ctx.where(f), f"the handler ends with {how}")
    ctx.floor("calculation exits", n, 6)
    # ---- worker_main
    fm = p.func(LIB + "worker:worker_main")
    m = 0
    for fails in (False, True):
        def lab(ev, st):
            if ev.kind == "call" and ev.callee and ev.callee.endswith("Worker.run"):
                return ("run", Cwd.cur(st))
        rule = Cwd(decide=lambda a, st: False if a[0] == "cmp" and a[1] == "==" and a[3] == NONE and (a[2][0] == "call" and "Path" in str(a[2][1]) or a[2][0] == "i" and a[2][2] == C("workflow")) else None,
                   raises=lambda ev, st: ["ValueError"] if fails and ev.callee and ev.callee.endswith("Worker.run") else False,
                   result=lambda ev, st: [] if fails and ev.callee and ev.callee.endswith("Worker.run") else None, label=lab,
                   inline=lambda g: g.qual.startswith(LIB + "utils.loc_stack:"))
        res = ctx.engine(rule).run(fm)
        sites |= rule.sites
        for how, st in [("return", s) for s, _ in res["return"]] + [("raise", s) for s in res["raise"]]:
            rs = st.rs or ()
            runs = [x for x in rs if x[0] == "run"]
            if not runs:
                continue
            m += 1
            con = f"worker {'raises' if fails else 'ends'}"
            ctx.ob("worker-restored", con, Cwd.cur(st) == CWD0, ctx.where(fm), f"the worker ends in {show(Cwd.cur(st))[:80]}")
            ctx.ob("worker-restored", con + " place", contains_key(runs[0][1], "workflow") or contains_key(runs[0][1], "workflow_dir_path"), ctx.where(fm), f"the worker runs in {show(runs[0][1])[:80]}")
            ctx.ob("not-swallowed", con, (how == "raise") == fails, ctx.where(fm), f"the worker ends with {how}")
    ctx.floor("worker exits", m, 2)
    # ---- nothing else changes the directory
    for mod, node, fi in chdir_calls(p):
        ok = (mod.name, node.lineno) in sites or fi is not None and fi.qual.startswith(LS) or fi is not None and mod.name.startswith(LIB + "tools.parse_args")
        ctx.ob("no-other", f"{mod.name.replace(LIB, '')} {fi.name if fi else 'module level'}", ok, f"{mod.path}:{node.lineno}",
               "changes the process working directory outside the saved-location stack")


def contains_attr_(t, name):
    return any(x[0] == "a" and x[2] == name for x in subterms(t))


def contains_key(t, key):
    return any(is_strc(x) and x[2] == key for x in subterms(t))


def chdir_calls(p):
    for mod in p.modules.values():
        if ".tests" in mod.name:
            continue
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Call):
                f = n.func
                nm = f.attr if isinstance(f, ast.Attribute) else (f.id if isinstance(f, ast.Name) else "")
                if nm in ("chdir", "fchdir"):
                    yield mod, n, enclosing_func(p, mod, n)


# ====================================================================== W05
DELETE = {"rmtree", "unlink", "rmdir", "removedirs", "write_text", "write_bytes"}
OSDELETE = {"os.remove", "os.rename", "os.replace", "shutil.move", "os.truncate"}


def destructive(ev):
    """Does this call remove or replace something that exists?  -> description or None"""
    g = gname(ev)
    if ev.name in DELETE or g in OSDELETE:
        return ev.name or g
    if ev.name == "remove" and ev.base is not None and ev.base == ("g", "os"):
        return "remove"
    if ev.name in ("rename", "replace") and len(ev.args) == 1 and not ev.kw:
        return ev.name
    return None


def w05_runs(p):
    """(name, function, self type, self term, args) of the entry points of the directory handling."""
    yield "prep_calc_dir", p.meth(ED, "prep_calc_dir"), None
    yield "copy_back", p.meth(ED, "copy_back"), None
    yield "make_copyback", p.meth(ED, "make_copyback"), None
    yield "register_loc", p.meth(LS, "register_loc"), "allow_overwrite"
    yield "copy_file", p.meth(LS, "copy_file"), "allow_overwrite"
    yield "symlink_file", p.meth(LS, "symlink_file"), "allow_overwrite"
    for n in ("push", "pop", "push_loc"):
        if n in p.classes[LS].methods:
            yield n, p.meth(LS, n), None


def reuse_attrs(ctx):
    """Attributes of EnsembleDirectory that hold exactly the reuse request."""
    p = ctx.p
    f = p.meth(ED, "__init__")
    spec = P(f.params[1])
    got = {}
    for known in (None, True):
        kd = key_decide({"reuse_output_dir": known})
        res = ctx.engine(Sim(lambda a, st: kd(a))).run(f)
        sets = []
        for st, _ in res["return"]:
            want = (lambda v: v in (FALSE, NONE)) if known is None else (lambda v: v == I(spec, C("reuse_output_dir")) or v == TRUE)
            sets.append({l[2] for l, v in st.heap.items() if l[0] == "a" and l[1] == SELF and want(v)})
        got[known] = set.intersection(*sets) if sets else set()
    return got[None] & got[True]


@check("W05", "effect analysis of every directory routine under both values of the reuse request, refusal table of the start-up check with its exceptions fed into the manager's handler, copy-back on every worker exit")
def w05(ctx):
    p = ctx.p
    ctx.rule("no-removal", "without the reuse request no directory routine removes or replaces anything that exists, on any path")
    ctx.rule("reuse-flag", "the reuse request comes from the specification 'reuse_output_dir' and is off when not given")
    ctx.rule("reuse-works", "with the reuse request an existing destination is removed before it is made again")
    ctx.rule("refused", "without the reuse request an existing ensemble directory, or copy-back directory, stops the run before anything is made; otherwise the copy-back directory is made")
    ctx.rule("workers-stopped", "when the start is refused every worker is told to stop before the error leaves the manager")
    ctx.rule("copied-back", "every end of a worker copies the output back, and each calculation directory is copied below the copy-back directory")
    flags = reuse_attrs(ctx)
    fi0 = p.meth(ED, "__init__")
    ctx.ob("reuse-flag", "default", bool(flags), ctx.where(fi0), "no attribute holds the reuse request with default off")
    heap = lambda v: {A(SELF, a): C(v) for a in flags}
    visited = set()
    LOCS = P("@ls")
    n = 0
    passed = set()
    for name, f, arg in w05_runs(p):
        for reuse in (False, True):
            opaque = (lambda g: g.qual.startswith(LS.split(":")[0])) if name == "prep_calc_dir" else (lambda g: False)
            kd = key_decide({"reuse_output_dir": True if reuse else None})
            seen = []

            def d(atom, st):
                r = kd(atom)
                if r is not None:
                    return r
                x = atom[1] if atom[0] == "t" else None
                if reuse and x is not None and callname(x) in (".exists", ".is_dir", "os.path.exists", "os.path.isdir"):
                    return None

            def lab(ev, st):
                if ev.kind not in ("callret", "mutate"):
                    return None
                g = p.funcs.get(ev.callee) if ev.callee else None
                if g is not None and g.cls is not None and g.cls.qual == LS and "allow_overwrite" in g.params:
                    v = args_of(ev, g).get("allow_overwrite", FALSE)
                    passed.add(name)
                    ctx.ob("no-removal" if not reuse else "reuse-works", f"{name} -> {g.name}", v == C(reuse), f"{ev.mod.path}:{ev.line} ({ev.func.name})", f"{g.name} is told reuse={show(v)} when the request is {reuse}")
                w = destructive(ev)
                a0 = ev.base if ev.base is not None and (not ev.args or ev.name in ("unlink", "rmdir")) else (ev.args[0] if ev.args else None)
                if w:
                    seen.append((ev.line, ev.func, w))
                    return ("gone", nosite(a0)) if ("gone", nosite(a0)) not in (st.rs or ()) else None
                if ev.name in ("copytree", "symlink"):
                    over = ev.kw.get("dirs_exist_ok", FALSE)
                    dest = nosite(ev.args[1]) if len(ev.args) > 1 else NONE
                    seen.append((ev.line, ev.func, "copytree over" if over != FALSE and name != "copy_back" else None))
                    if reuse and name != "copy_back" and over != TRUE and ("gone", dest) not in (st.rs or ()):
                        absent = any(x[0] == "t" and callname(x[1]) in (".exists", "os.path.exists", "os.path.lexists") and v is False and nosite(x[1][2][0]) == dest for x, v in st.facts.items())
                        ctx.ob("reuse-works", f"{name}: {ev.name}", absent, f"{ev.mod.path}:{ev.line} ({ev.func.name})", f"{ev.name} to {show(dest)[:60]} fails when the destination exists although reuse was requested")
            args = {arg: C(reuse)} if arg and arg in f.params else {}
            merge = {"relevant": lambda a: False} if name == "prep_calc_dir" else {}
            eng = ctx.engine(Sim(d, label=lab, limit=8, **merge, inline=lambda g: g.qual.startswith((LS.split(":")[0], ED.split(":")[0])) and not opaque(g)),
                             types={A(SELF, "loc_stack"): {LS}})
            res = eng.run(f, args=args, heap=heap(reuse))
            visited |= eng.funcs_seen
            n += len(res["return"]) + len(res["raise"])
            for line, fn, w in seen:
                if not reuse:
                    ctx.ob("no-removal", f"{name}: {fn.name}", w is None, f"{fn.module.path}:{line} ({fn.name})", f"{w} is reached without the reuse request")
    ctx.floor("paths of directory routines", n, 20)
    # every other removal in these modules must be out of reach
    for mn in (LS.split(":")[0], ED.split(":")[0]):
        mod = p.modules[mn]
        for node in ast.walk(mod.tree):
            if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in DELETE | {"remove", "rename", "replace", "move"}:
                fn = enclosing_func(p, mod, node)
                if fn is None or fn.qual in visited:
                    continue
                used = [c for c in p.funcs.values() if ".tests" not in c.module.name and any(isinstance(x, ast.Attribute) and x.attr == fn.name for x in ast.walk(c.node))]
                ctx.ob("no-removal", f"unreached {fn.name}", not used, f"{mod.path}:{node.lineno}", f"{node.func.attr} is reached from {used[0].qual if used else ''} without the reuse request being looked at")
    # ---- refusal
    f = p.meth(ED, "make_copyback")
    ens, back = A(SELF, "ensemble_dir"), A(SELF, "copybackdir")
    raised = set()
    for e_ in (False, True):
        for b_ in (False, True):
            for reuse in (False, True):
                for cb in (False, True):
                    def d(atom, st):
                        x = atom[1] if atom[0] == "t" else None
                        if x is not None and callname(x) in (".exists", ".is_dir", "os.path.exists", "os.path.isdir"):
                            return e_ if contains(x, ens) else (b_ if contains(x, back) else None)
                        if x == A(SELF, "ensemble_copy_back"):
                            return cb

                    def mk(ev):
                        return ev.name in ("mkdir", "makedirs") and (ev.base == back or ev.args and ev.args[0] == back)

                    def raises(ev, st):
                        ok = ev.kw.get("exist_ok", FALSE)
                        if mk(ev) and b_ and ok != TRUE:
                            return ["FileExistsError"]
                        return False
                    res = ctx.engine(Sim(d, raises=raises, result=lambda ev, st: [] if raises(ev, st) else None, label=lambda ev, st: ("made",) if ev.kind == "callret" and mk(ev) else None)).run(f, heap={**heap(reuse)})
                    refuse = not reuse and (e_ or cb and b_)
                    con = f"ensemble dir exists={e_} copy-back dir exists={b_} reuse={reuse} copy back={cb}"
                    ctx.ob("refused", con, bool(res["raise"]) if refuse else bool(res["return"]), ctx.where(f), "the start-up check has no such end")
                    for st, _ in res["return"]:
                        ctx.ob("refused", con, not refuse, ctx.where(f), "the run starts in an existing directory")
                        if cb and not refuse and not b_:
                            ctx.ob("refused", con + " made", ("made",) in (st.rs or ()), ctx.where(f), "the copy-back directory is not made")
                    for st in res["raise"]:
                        ctx.ob("refused", con, refuse, ctx.where(f), f"the run is refused ({exc_of(st)})")
                        raised.add(exc_of(st))
                        ctx.ob("refused", con + " untouched", not st.rs, ctx.where(f), "a directory is made although the run is refused")
    # ---- the manager's reaction
    fm = p.meth(LIB + "manager:Manager", "__init__")
    ctx.floor("refusal exceptions", len(raised), 1)
    for exc in sorted(x for x in raised if x):
        hit = lambda ev: ev.callee is not None and ev.callee == f.qual
        res = ctx.engine(Sim(lambda a, st: True if a == mk_cmp("==", A(SELF, "resources"), NONE) else None,
                             raises=lambda ev, st: [exc] if hit(ev) else False, result=lambda ev, st: [] if hit(ev) else None,
                             label=lambda ev, st: ("stop",) if ev.kind == "callret" and ev.callee and ev.callee.endswith("Manager._kill_workers") or ev.kind == "callret" and ev.name == "send" and any(x == K(p, "STOP_TAG") for x in ev.args) else (("check",) if ev.kind == "call" and hit(ev) else None),
                             inline=lambda g: g.name not in ("make_copyback", "_kill_workers", "_run_additional_worker", "send"))).run(fm)
        ends = [("return", s) for s, _ in res["return"]] + [("raise", s) for s in res["raise"]]
        ends = [(h, s) for h, s in ends if ("check",) in (s.rs or ())]
        ctx.ob("workers-stopped", exc, bool(ends), ctx.where(fm), "the manager does not make the start-up check")
        for how, st in ends:
            ctx.ob("workers-stopped", exc, how == "raise", ctx.where(fm), "the refused run goes on")
            rs = list(st.rs or ())
            ctx.ob("workers-stopped", exc + " stop", ("stop",) in rs[rs.index(("check",)):], ctx.where(fm), f"{exc} leaves the manager while the workers wait for work")
    # ---- copy back
    k = 0
    fr = p.meth(WK, "run")
    for nm, tag, work, status, exp, eps, exits in run_scenarios(ctx):
        for how, rs, st in exits:
            k += 1
            ctx.ob("copied-back", "worker end", any(x[0] == "copy_back" for x in rs), ctx.where(fr), f"after {nm} the worker ends ({how}) without copying back")
    ctx.floor("worker exits", k, 20)
    fc = p.meth(ED, "copy_back")
    dirs = A(A(SELF, "loc_stack"), "dirs")
    got = set()

    def d(atom, st):
        x = atom[1] if atom[0] == "t" else None
        if x in (A(SELF, "ensemble_copy_back"), A(SELF, "loc_stack")) or x is not None and callname(x) == ".exists" and contains(x, ens):
            return True
        if atom[0] == "cmp" and atom[1] == "==" and contains(atom, ens) and any(x[0] == "elem" for x in subterms(atom)):
            return False
        if x is not None and callname(x) == ".startswith":
            return False
    worst = []
    ctx.engine(IterSim(d, dirs, back, got, worst)).run(fc)
    ctx.ob("copied-back", "each directory", bool(got) and not worst, ctx.where(fc), "a calculation directory is passed over" if got else "no calculation directory is copied below the copy-back directory")


class IterSim(Sim):
    """Every iteration over the calculation directories copies the directory below the copy-back directory."""

    def __init__(self, d, dirs, back, got, worst):
        super().__init__(d)
        self.dirs, self.back, self.got, self.worst = dirs, back, got, worst

    def on_event(self, ev, st, eng):
        if ev.kind == "iter" and len(eng.func_stack) == 1:
            st.rs = ()
        if ev.kind == "callret" and ev.name in ("copytree", "copy", "copy2") and len(ev.args) > 1:
            if any(x[0] == "elem" and contains(x, self.dirs) for x in subterms(ev.args[0])) and contains(ev.args[1], self.back):
                st.rs = (("copied",),)
        if ev.kind == "iterend" and len(eng.func_stack) == 1 and ev.extra is not None and contains(ev.extra, self.dirs):
            (self.got.add(1) if st.rs == (("copied",),) else self.worst.append(ev.line))
