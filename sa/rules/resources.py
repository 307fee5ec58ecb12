"""R01, R02: resource sets and their scheduler."""
import ast
import itertools

from . import check
from .common import *

RM = LIB + "resources.worker_resources:ResourceManager"
RS = LIB + "resources.scheduler:ResourceScheduler"
COUNTERS = ("rsets_free", "gpu_rsets_free", "nongpu_rsets_free")
TOTALS = {"rsets_free": "total_num_rsets", "gpu_rsets_free": "total_num_gpu_rsets", "nongpu_rsets_free": "total_num_nongpu_rsets"}
ASG = I(A(SELF, "rsets"), "assigned")


def is_assigned(t):
    """t is (an element or selection of) the assigned column."""
    return mentions(t, lambda x: x[0] == "i" and x[2] == C("assigned"))


def rows_of(t, field):
    """Row selector of self.rsets[...]['field'] locations, in either index order; None when the whole column, False when another location."""
    if t == I(A(SELF, "rsets"), field):
        return None
    if t[0] == "i" and t[2] == C(field) and t[1][0] == "i" and t[1][1] == A(SELF, "rsets"):
        return t[1][2]
    if t[0] == "i" and t[1] == I(A(SELF, "rsets"), field):
        return t[2]
    return False


def sel_mask(t):
    """Row selector (index array or mask) -> conjunction of (atom, polarity), or None."""
    n = callname(t)
    if n in ("numpy.flatnonzero",) and t[2]:
        return mask_atoms(t[2][0])
    if t[0] == "i" and callname(t[1]) in ("numpy.where", "numpy.nonzero") and t[1][2]:
        return mask_atoms(t[1][2][0])
    if t[0] in ("cmp", "b", "u", "not", "and"):
        return mask_atoms(t)
    return None


def count_of(t):
    """Number of rows a counting term counts -> frozenset of (atom, polarity), or None."""
    n = callname(t)
    if t[0] == "len":
        m = sel_mask(t[1])
        return None if m is None else frozenset(m)
    if n in ("sum", "numpy.sum", "numpy.count_nonzero", ".sum", "len", "int"):
        a = t[2][0]
        if n == "int":
            return count_of(a)
        if n == "len":
            m = sel_mask(a)
            return None if m is None else frozenset(m)
        pol = True
        while (a[0] == "u" and a[1] in ("~", "not")) or a[0] == "not" or callname(a) in ("numpy.logical_not", "numpy.invert"):
            a = a[2] if a[0] == "u" else (a[1] if a[0] == "not" else a[2][0])
            pol = not pol
        for f in ("gpus", "assigned"):
            r = rows_of(a, f)
            if r is None and f == "gpus":
                return frozenset([(I(A(SELF, "rsets"), "gpus"), pol)])
            if r not in (False, None):
                m = sel_mask(r)
                return None if m is None else frozenset(m) | {(I(A(SELF, "rsets"), f), pol)}
        m = mask_atoms(a)
        if m is None:
            return None
        return frozenset(m if pol else ([(m[0][0], not m[0][1])] if len(m) == 1 else []))
    return None


@check("R01", "truth tables over set state by path-sensitive abstract interpretation of assign/free, and a who-writes scan over the package")
def r01(ctx):
    ctx.rule("assign-table", "per set of the team: a free set is recorded for the worker and each total drops by one (by kind); a set already held by that worker "
             "changes nothing; a set held by another worker raises")
    ctx.rule("free", "releasing a worker sets exactly the sets it holds to unassigned and adds their number (by kind) to the totals; releasing all resets everything")
    ctx.rule("initial", "initially every set is unassigned and the free totals are the totals")
    ctx.rule("writers", "only the resource manager writes assignments and its totals; only the manager process assigns and frees")
    ctx.rule("default-team", "a work order without a team gets the worker's own default set, none for a worker that has none, and the team sent is the team assigned")
    p = ctx.p
    fa = p.meth(RM, "assign_rsets")
    team, wk = P(fa.params[1]), P(fa.params[2])
    rows = 0
    for own, gpu in itertools.product(("free", "same", "other"), (0, 1)):
        looped = []

        def decide(atom):
            if atom[0] == "t" and atom[1] == team:
                return True
            if atom[0] == "cmp" and atom[1] == "==" and is_assigned(atom[2]) and atom[3] == C(-1):
                return own == "free"
            if atom[0] == "cmp" and atom[1] == "==" and wk in atom[2:] and any(is_assigned(x) for x in atom[2:]):
                return own == "same"
            if atom[0] == "cmp" and atom[1] == "<0" and len(atom[2]) == 1 and is_assigned(atom[2][0][0]):
                (k, v), = atom[2]          # worker ids are >= 0: assigned < 0 iff free
                return {(1, 0): own == "free", (-1, 0): None, (-1, -1): own != "free"}.get((v, atom[3]))
            if atom[0] == "cmp" and atom[1] == "in" and is_assigned(atom[2]) and atom[3][0] in ("list", "tuple", "set"):
                vs = atom[3][1]
                return (own == "free" and C(-1) in vs) or (own == "same" and wk in vs)
            if atom[0] == "t" and mentions(atom[1], lambda x: x[0] == "i" and x[2] == C("gpus")):
                return bool(gpu)
            if callname(atom[1] if atom[0] == "t" else atom) in ("numpy.any", "any", "numpy.all", "all"):
                return None

        def label(ev, st, eng):
            if ev.kind == "store":
                for f in COUNTERS:
                    if ev.loc == A(SELF, f):
                        d, c = lin_diff(ev.value, ev.old if ev.old is not None and ev.old[0] not in ("phi", "deleted") else ev.loc)
                        return ("n", f, c if not d else show(ev.value))
                r = rows_of(ev.loc, "assigned")
                if r is not False:
                    return ("set", r, ev.value)

        def close(cur, st, ev, eng):
            looped.append((cur, ev.where()))
        rule = IterFx(lambda ev, st: True, label, close, oracle=lambda a, st, e: decide(a))
        res = ctx.engine(rule).run(fa)
        con = f"set is {own}, gpu={gpu}"
        if not looped and own != "other":
            if not any(ev for ev in ()):
                ctx.assumption("assign_rsets does not visit sets one by one: its per-set effects are not decided")
            continue
        if own == "other":
            # a path that has looked at a set must raise
            bad = [1 for st, _ in res["return"] if st.rs and (("loop",) in st.rs[0]) and looped]
            ctx.ob("assign-table", con, not looped and bool(res["raise"]), ctx.where(fa), "a set held by another worker is taken or passed over without an error" + ("" if not bad else ""))
            rows += 1
            continue
        for cur, where in looped:
            rows += 1
            sets = [x for x in cur if x[0] == "set"]
            ns = {x[1]: x[2] for x in cur if x[0] == "n"}
            if own == "same":
                ctx.ob("assign-table", con, not sets and not ns, where, "a set the worker already holds changes the totals or assignments")
                continue
            ok = len(sets) == 1 and sets[0][2] == wk and sets[0][1] is not None and (is_elem_of(sets[0][1], team) or mentions(sets[0][1], lambda x: x == team))
            ctx.ob("assign-table", con + " recorded", ok, where, f"the free set is recorded as {[(show(x[1]) if x[1] else 'all', show(x[2])) for x in sets] or 'nothing'}")
            want = {"rsets_free": -1, "gpu_rsets_free" if gpu else "nongpu_rsets_free": -1}
            ctx.ob("assign-table", con + " totals", ns == want, where, f"the totals change by {ns}, expected {want}")
    ctx.floor("assignment rows", rows, 1)

    ff = p.meth(RM, "free_rsets")
    wk = P(ff.params[1])
    for none in (True, False):
        rule = Table(lambda a: (none if a == mk_cmp("==", wk, NONE) else (not none if a == ("t", wk) and none else None)),
                     label=lambda ev, st, e: ("st", ev.loc, ev.value, ev.where()) if ev.kind == "store" else (("loop",) if ev.kind == "loop" else None))
        rule.value = lambda t, st, e: P("@assigned_afterwards") if t == ASG and any(x[0] == "st" and rows_of(x[1], "assigned") is not False for x in st.rs or ()) else None
        res = ctx.engine(rule).run(ff)
        con = "all" if none else "one worker"
        for st, _ in res["return"]:
            rs = st.rs or ()
            if ("loop",) in rs:
                ctx.assumption("free_rsets loops over sets: its effects are not decided")
                continue
            asg = [(rows_of(x[1], "assigned"), x[2], x[3]) for x in rs if x[0] == "st" and rows_of(x[1], "assigned") is not False]
            if none:
                ctx.ob("free", con + " unassigned", len(asg) >= 1 and asg[-1][0] is None and asg[-1][1] == C(-1), ctx.where(ff), "not every set becomes unassigned")
                for f in COUNTERS:
                    v = st.heap.get(A(SELF, f))
                    ctx.ob("free", con + " " + f, v == A(SELF, TOTALS[f]), ctx.where(ff), f"{f} becomes {show(v) if v else 'unchanged'}")
                continue
            held = ("cmp", "==", ASG, wk)
            held2 = ("cmp", "==", wk, ASG)
            norm = lambda s: None if s is None else frozenset((held if a == held2 else a, b) for a, b in s)
            ok = len(asg) == 1 and asg[0][1] == C(-1)
            if ok and asg[0][0] is not None:
                m = sel_mask(asg[0][0])
                ok = m is None or norm(m) == {(held, True)}
            elif ok:
                ok = False
            ctx.ob("free", con + " unassigned", ok, ctx.where(ff), f"the sets released are not exactly those the worker holds: {[show(x[0]) if x[0] else 'all' for x in asg] or 'none'}")
            gp = I(A(SELF, "rsets"), "gpus")
            for f, kind in (("rsets_free", None), ("gpu_rsets_free", True), ("nongpu_rsets_free", False)):
                v = st.heap.get(A(SELF, f))
                ok = v is not None
                if ok:
                    d, c = lin(("b", "-", v, A(SELF, f)))
                    cs = [(norm(count_of(k)), n) for k, n in d.items()]
                    want = {(held, True)} | ({(gp, kind)} if kind is not None else set())
                    if any(x is None for x, _ in cs):
                        ctx.assumption("a counter in free_rsets is updated by a form that is not decided")
                        continue
                    tot, gs = frozenset({(held, True)}), {k: frozenset({(held, True), (gp, k)}) for k in (True, False)}
                    forms = [{frozenset(want): 1}] + ([{tot: 1, gs[not kind]: -1}] if kind is not None else [{gs[True]: 1, gs[False]: 1}])
                    ok = c == 0 and dict(cs) in forms
                ctx.ob("free", con + " " + f, ok, ctx.where(ff), f"{f} becomes {show(v) if v else 'unchanged'}")

    fi = p.meth(RM, "__init__")
    rule = Table(lambda a: None, label=lambda ev, st, e: ("asg", ev.value, ev.loc) if ev.kind == "store" and ev.loc[0] == "i" and contains(ev.loc, C("assigned")) else None,
                 relevant=lambda a: False, inline=lambda f, e: f.cls is not None and f.cls.qual == RM and f.name != "get_index_list")
    res = ctx.engine(rule).run(fi)
    for st, _ in res["return"]:
        a = [x for x in st.rs or () if x[0] == "asg"]
        ok = bool(a) and a[-1][1] == C(-1) and a[-1][2][0] == "i" and a[-1][2][2] == C("assigned")
        if not a:
            v = st.heap.get(A(SELF, "rsets"))
            ok = v is not None and mentions(v, lambda x: x == C(-1))
        ctx.ob("initial", "assigned", ok, ctx.where(fi), "sets do not start unassigned (-1)")
        for f in COUNTERS:
            v = st.heap.get(A(SELF, f))
            ctx.ob("initial", f, v in (A(SELF, TOTALS[f]), ), ctx.where(fi), f"{f} starts as {show(v) if v else 'unset'}")
    ctx.floor("init paths", len(res["return"]), 1)

    # who writes
    n = 0
    for m in p.modules.values():
        if ".tests" in m.name:
            continue
        for node in ast.walk(m.tree):
            tg = []
            if isinstance(node, ast.Assign):
                tg = node.targets
            elif isinstance(node, (ast.AugAssign, ast.AnnAssign)):
                tg = [node.target]
            elif isinstance(node, ast.Delete):
                tg = node.targets
            for t in tg:
                hit = None
                for x in ast.walk(t):
                    if isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Constant) and x.slice.value == "assigned":
                        hit = "assigned"
                    if isinstance(x, ast.Attribute) and x.attr in COUNTERS and isinstance(x.ctx, (ast.Store, ast.Del)):
                        hit = x.attr
                if hit is None:
                    continue
                n += 1
                f = enclosing_func(p, m, node)
                c = f.cls.qual if f is not None and f.cls is not None else None
                while f is not None and c is None and f.parent is not None:
                    f = f.parent
                    c = f.cls.qual if f.cls is not None else None
                own = isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self"
                ok = c == RM or (c == RS and hit != "assigned" and own)
                ctx.ob("writers", f"{hit} in {f.qual.split(':')[-1] if f else m.name}", ok, f"{m.path}:{node.lineno}", f"{hit} is written outside the resource manager")
            if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in ("assign_rsets", "free_rsets"):
                f = enclosing_func(p, m, node)
                c = f.cls.qual if f is not None and f.cls is not None else None
                n += 1
                nm = node.func.attr
                nargs = len(node.args) + len(node.keywords)
                ok = c == LIB + "manager:Manager" and (nargs == (2 if nm == "assign_rsets" else 1)) or c == RM
                ctx.ob("writers", f"{nm} called in {f.qual.split(':')[-1] if f else m.name}", ok, f"{m.path}:{node.lineno}",
                       f"{nm} is called outside the manager or without the worker")
    ctx.floor("writers", n, 6)

    # default team
    fs = p.meth(LIB + "manager:Manager", "_set_resources")
    Wk, w = P(fs.params[1]), P(fs.params[2])
    li = I(Wk, "libE_info")
    tloc = I(li, "rset_team")
    isteam = lambda t: t == tloc or callname(t) == ".get" and t[2][:1] == (li,) and C("rset_team") in t[2]
    isdef = lambda t: t[0] == "i" and t[1][0] == "a" and t[1][2] == "index_list"
    for given, w0, dn in itertools.product((0, 1), (0, 1), (0, 1)):
        if given and (w0 or dn):
            continue

        def decide(atom):
            if atom[0] == "cmp" and atom[1] == "==" and isteam(atom[2]) and atom[3] == NONE:
                return not given
            if atom == ("cmp", "in", C("rset_team"), li):
                return bool(given)
            if atom[0] == "cmp" and atom[1] == "==" and isdef(atom[2]) and atom[3] == NONE:
                return bool(dn)
            if atom[0] == "cmp" and atom[1] == "<0" and len(atom[2]) == 1 and atom[2][0][0] == w:
                v, c = atom[2][0][1], atom[3]
                return {(-1, 0): not w0, (1, -1): bool(w0), (1, 0): False, (-1, 1): not w0 and None}.get((v, c))
            if atom in (("t", w), ) or atom == mk_cmp("==", w, C(0)):
                return (not w0) if atom[0] == "t" else bool(w0)

        def label(ev, st, eng):
            if ev.kind == "call" and ev.name == "assign_rsets":
                a = args_of(ev, fa)
                v = a.get(fa.params[1])
                if v is not None and v[0] == "new":
                    cont = st.heap.get(("content", v))
                    v = ("lst", tuple(cont[1]) if cont and cont[0] in ("list", "tuple") else cont)
                return ("assign", v, a.get(fa.params[2]))
            if ev.kind == "mutate" and ev.name in ("append", "extend", "insert", "__iadd__") and ev.args:
                return ("app", ev.args[-1])
            if ev.kind == "store" and ev.loc == tloc:
                return ("team", ev.value, st.heap.get(("content", ev.value)))
        rule = Table(decide, label=label, inline=lambda f, e: f.name != "assign_rsets")
        res = ctx.engine(rule).run(fs)
        con = f"team given={given} worker0={w0} no default={dn}"
        for st, _ in res["return"]:
            rs = st.rs or ()
            a = [x for x in rs if x[0] == "assign"]
            ok = len(a) == 1 and a[0][2] == w
            ctx.ob("default-team", con + " assigned once", ok, ctx.where(fs), "assign_rsets is not called once for this worker")
            put = any(x[0] == "app" and isdef(x[1]) for x in rs) or any(x[0] == "team" and mentions_def(x, isdef) for x in rs) or \
                any(x[0] == "assign" and x[1] is not None and mentions(x[1], isdef) for x in rs)
            if given:
                ok = not put and not any(x[0] == "team" and not isteam(x[1]) for x in rs) and (not a or a[0][1] is None or isteam(a[0][1]))
                ctx.ob("default-team", con, ok, ctx.where(fs), "a team given by the allocation function is replaced")
            else:
                want = not w0 and not dn
                ctx.ob("default-team", con, put == want, ctx.where(fs), "the worker's default set is " + ("missing" if want else "used although it has none"))


def mentions_def(x, isdef):
    return any(isinstance(t, tuple) and t and not isinstance(t, str) and mentions(t, isdef) for t in x[1:] if isinstance(t, tuple))


# ---------------------------------------------------------------------------------------------- R02
def impossible(t, decide):
    """t runs over a selection whose mask excludes the case described by decide."""
    for x in subterms(t):
        if x[0] == "elem":
            m = sel_mask(x[1])
            for a, pol in m or ():
                v = truth(a, decide)
                if v is not None and v != pol:
                    return True
    return False


def unbool(t):
    while callname(t) in ("bool", "numpy.bool_", "int") and len(t[2]) == 1 or t[0] == "t":
        t = t[1] if t[0] == "t" else t[2][0]
    return t


class Keep:
    """Does a filtering function keep an element?  Judged over several valuations of the same function."""

    def __init__(self):
        self.rows = []
        self.und = False

    def add(self, key, res, decide, iselem, want, und=()):
        if und:
            self.rows.append((key, False, False, {None}, want))
            self.und = True
            return
        rm = ap = False
        comps = []
        for st, t in res["return"]:
            for x in st.rs or ():
                rm |= x[0] == "rm"
                ap |= x[0] == "ap"
                if x[0] == "val":
                    comps += [c for c in subterms(x[1]) if c[0] == "comp" and c[1] != "dict"]
            comps += [c for c in subterms(t) if c[0] == "comp" and c[1] != "dict"]
        cv = set()
        for c in comps:
            if iselem(c[2]):
                cs = c[4] if isinstance(c[4], tuple) else ()
                cs = cs if cs and isinstance(cs[0], tuple) else ((cs,) if cs else ())
                vals = [truth(x, decide) for x in cs]
                cv.add(False if False in vals else (None if None in vals else True))
        self.rows.append((key, rm, ap, cv, want))

    @staticmethod
    def label(iselem):
        def f(ev, st, eng):
            if ev.kind == "mutate" and ev.args and iselem(ev.args[-1]):
                if ev.name in ("remove", "discard"):
                    return ("rm",)
                if ev.name in ("append", "add", "insert"):
                    return ("ap",)
            if ev.kind == "store" and ev.value is not None and mentions(ev.value, lambda x: x[0] == "comp"):
                return ("val", ev.value)
        return f

    def verdicts(self):
        """[(key, kept, want)], kept None when undecided."""
        anyap = any(r[2] for r in self.rows)
        anyrm = any(r[1] for r in self.rows)
        anycv = any(r[3] for r in self.rows)
        out = []
        for key, rm, ap, cv, want in self.rows:
            if self.und:
                kept = None
            elif anyap:
                kept = ap
            elif anyrm:
                kept = not rm
            elif anycv:
                kept = None if len(cv) != 1 else next(iter(cv))
            else:
                kept = None
            out.append((key, kept, want))
        return out


CACHE = A(SELF, "avail_rsets_by_group")
SHALLOW = {".copy", "dict", "copy.copy", "list", "numpy.copy"}


def aliases(t, target):
    """Mutating t changes data reachable from target: index chain over target, or over a shallow copy of it below the copied level."""
    depth = 0
    while True:
        if t == target:
            return True
        if t[0] in ("i", "elem", "a"):
            depth += 1
            t = t[1]
        elif callname(t) in (".items", ".values", ".get", ".setdefault", ".keys") and t[2]:
            depth += callname(t) in (".get", ".setdefault")
            t = t[2][0]
        elif callname(t) in SHALLOW and t[2] and depth > 0:
            depth -= 1
            t = t[2][0]
        else:
            return False


@check("R02", "path-sensitive abstract interpretation of the scheduler: effect ordering before raises, truth tables of its filters and total checks")
def r02(ctx):
    ctx.rule("initial", "the scheduler starts from the resource manager's free totals with no cache of its own")
    ctx.rule("cache-source", "only sets that are unassigned enter the cache, under their own index and group")
    ctx.rule("kind-filter", "a GPU / non-GPU request sees exactly the cached sets of that kind, any other request sees all")
    ctx.rule("remove-team", "exactly the sets of the team leave the cache")
    ctx.rule("commit", "every team returned was removed from the cache and deducted from the totals (all and by kind); a request for none changes nothing")
    ctx.rule("fail-clean", "no cache or total changes before a refusal")
    ctx.rule("total-table", "a request above what exists, or above what is free, of its kind is refused with the matching error, and no other request is")
    ctx.rule("team-source", "teams are drawn from the filtered sets: whole request or nothing, slots common to all groups used, one set per group and slot")
    p = ctx.p
    fi = p.meth(RS, "__init__")
    res = ctx.engine(Rule()).run(fi)
    for st, _ in res["return"]:
        for f in COUNTERS:
            v = st.heap.get(A(SELF, f))
            ok = v is not None and v[0] == "a" and v[2] == f and v[1] != SELF
            ctx.ob("initial", f, ok, ctx.where(fi), f"{f} starts as {show(v) if v else 'unset'}")
        v = st.heap.get(CACHE)
        ctx.ob("initial", "cache", v is None or v == NONE, ctx.where(fi), "the cache does not start empty")

    # cache source
    fg = p.meth(RS, "get_avail_rsets_by_group")
    isset = lambda t: mentions(t, lambda x: x[0] == "a" and x[2] == "rsets") and t[0] in ("elem", "i")
    k = Keep()
    hit = []
    for val in (-1, 0, 1, 7):
        asg = val != -1

        def decide(atom):
            if atom == mk_cmp("==", CACHE, NONE):
                return True
            if atom == ("t", CACHE):
                return False
            if atom[0] == "cmp" and atom[1] == "==" and is_assigned(atom[2]) and is_c(atom[3]):
                return val == atom[3][2]
            if atom[0] == "cmp" and atom[1] == "<0" and len(atom[2]) == 1 and is_assigned(atom[2][0][0]):
                return atom[2][0][1] * val + atom[3] < 0
            if atom[0] == "t" and is_assigned(atom[1]) and atom[1][0] in ("i", "elem"):
                return val != 0

        def label(ev, st, eng):
            if ev.kind == "mutate" and ev.name in ("append", "add", "insert"):
                if impossible(ev.args[-1], decide):
                    return None
                hit.append((ev, nosite(ev.base), nosite(ev.args[-1])))
                return ("ap",)
            if ev.kind == "mutate" and ev.name in ("remove", "discard"):
                return ("rm",)
            if ev.kind == "store" and ev.value is not None and mentions(ev.value, lambda x: x[0] == "comp"):
                return ("val", ev.value)
        tb = Table(decide, label=label, watch=lambda a: is_assigned(a))
        res = ctx.engine(tb).run(fg)
        k.add(f"assigned to {val}" if asg else "free", res, decide, lambda t: t[0] in ("elem", "idx", "i"), not asg, tb.undecided)
    und = 0
    for key, kept, want in k.verdicts():
        und += kept is None
        ctx.ob("cache-source", f"{key} set", kept is None or kept == want, ctx.where(fg), f"a set that is {key} is {'kept in' if kept else 'left out of'} the cache")
    for ev, base, arg in hit:
        if base[0] == "i" and mentions(base[2], lambda x: x == C("group")) and arg[0] in ("elem", "idx", "i"):
            ctx.ob("cache-source", "value", not (arg[0] == "i" and is_strc(arg[2])), ev.where(), f"{show(arg)} is recorded instead of the set's index")
    # a cache that exists is used as it is
    st0 = ctx.engine(Table(lambda a: False if a == mk_cmp("==", CACHE, NONE) else (True if a == ("t", CACHE) else None),
                           label=lambda ev, st, e: ("w",) if ev.kind in ("store", "mutate") and (ev.loc or ev.base) is not None and aliases(ev.loc or ev.base, CACHE) else None)).run(fg)
    for st, t in st0["return"]:
        ctx.ob("cache-source", "existing cache", not st.rs, ctx.where(fg), "a cache that already exists is rebuilt, giving out sets twice")

    # kind filter
    fk = p.meth(RS, "filter_for_rset_type")
    av, ug = P(fk.params[1]), P(fk.params[2])
    k = Keep()
    iselem = lambda t: t[0] == "elem" and mentions(t, lambda x: x == av) or t[0] == "i" and t[1] == av
    for use, gpu in itertools.product((None, True, False), (False, True)):
        def decide(atom):
            if atom == mk_cmp("==", ug, NONE):
                return use is None
            if atom == ("t", ug):
                return bool(use)
            if atom[0] == "cmp" and atom[1] == "==" and atom[2] == ug and is_c(atom[3]):
                return use is not None and use == atom[3][2]
            if atom[0] == "cmp" and atom[1] == "==" and ug in [unbool(x) for x in atom[2:]] and any(mentions(x, lambda y: y == C("gpus")) for x in atom[2:]):
                return None if use is None else use == gpu
            if atom[0] == "t":
                x, pol = atom[1], True
                while x[0] == "u" and x[1] in ("~", "not"):
                    x, pol = x[2], not pol
                if mentions(x, lambda y: y[0] == "i" and y[2] == C("gpus")):
                    return gpu is pol
        tb = Table(decide, label=Keep.label(iselem), watch=lambda a: mentions(a, lambda y: y == C("gpus") or y == ug))
        res = ctx.engine(tb).run(fk)
        con = f"use_gpus={use} set has gpus={gpu}"
        if use is None:
            for st, t in res["return"]:
                ok = t == av or strip_arr(t) == av or callname(t) in ("copy.deepcopy", "copy.copy", "dict") and t[2][0] == av or t[0] in ("new", "comp")
                ctx.ob("kind-filter", con, ok and not any(x[0] == "rm" for x in st.rs or ()), ctx.where(fk), "a request of no particular kind does not see all sets")
        else:
            k.add(con, res, decide, iselem, use == gpu, tb.undecided)
    for key, kept, want in k.verdicts():
        ctx.ob("kind-filter", key, kept is None or kept == want, ctx.where(fk), f"the set is {'kept' if kept else 'left out'}")

    # remove team
    fo = p.meth(RS, "filter_out_rset_team")
    av2, tm = P(fo.params[1]), P(fo.params[2])
    k = Keep()
    iselem2 = lambda t: t[0] == "elem" and mentions(t, lambda x: x == av2) or t[0] == "i" and t[1] == av2
    back = []
    for inn in (True, False):
        def decide(atom):
            if atom[0] == "cmp" and atom[1] == "in" and (atom[3] == tm or mentions(atom[3], lambda x: x == tm)):
                return inn
        lab = Keep.label(iselem2)

        def label(ev, st, eng):
            if ev.kind == "mutate" and ev.name in ("remove", "discard") and ev.args and is_elem_of(ev.args[-1], tm):
                return None
            if ev.kind == "store" and ev.loc[0] == "i":
                back.append(ev.loc)
            return lab(ev, st, eng)
        res = ctx.engine(Table(decide, label=label)).run(fo)
        k.add("set in the team" if inn else "set not in the team", res, decide, iselem2, not inn)
    for key, kept, want in k.verdicts():
        ctx.ob("remove-team", key, kept is None or kept == want, ctx.where(fo), f"the set {'stays in' if kept else 'leaves'} the cache")

    # commit / fail-clean
    fa = p.meth(RS, "assign_resources")
    rq, ug = P(fa.params[1]), P(fa.params[2])
    VALID, TEAMA, TEAMB = P("@valid"), P("@teamA"), P("@teamB")
    OUT = P("@filtered")
    cv = {"get_avail_rsets_by_group": CACHE, "filter_for_rset_type": VALID, "calc_req_split": P("@split"), "calc_even_split_uneven_groups": P("@split2"),
          "get_sorted_lens": P("@lens"), "get_avail_slots_by_group": P("@slots"), "get_matching_slots": P("@match"),
          "assign_team_from_slots": TEAMA, "find_rsets_any_slots": TEAMB, "calc_rsets_even_grps": P("@split")}
    opaque = set(cv) | {"filter_out_rset_team", "check_total_rsets"}
    n = 0
    for use in (None, True, False):
        def decide(atom):
            if atom == mk_cmp("==", ug, NONE):
                return use is None
            if atom == ("t", ug):
                return bool(use)
            if atom == mk_cmp("==", rq, C(0)):
                return False
            if atom == ("t", rq):
                return True
            if atom == mk_cmp("==", CACHE, NONE):
                return False

        def label(ev, st, eng):
            if ev.kind == "call" and ev.name == "filter_out_rset_team":
                a = args_of(ev, fo)
                return ("out", a.get(fo.params[1]), a.get(fo.params[2]))
            if ev.kind == "call" and ev.name == "check_total_rsets":
                return ("check", tuple(ev.args) + tuple(ev.kw.values()))
            if ev.kind == "call" and ev.name == "filter_for_rset_type":
                return ("kind", tuple(ev.args) + tuple(ev.kw.values()))
            if ev.kind == "call" and ev.name in ("get_avail_slots_by_group", "find_rsets_any_slots", "get_sorted_lens"):
                return ("src", ev.name, (tuple(ev.args) + tuple(ev.kw.values()))[0])
            if ev.kind == "store" and ev.loc in [A(SELF, f) for f in COUNTERS]:
                return ("w", ev.loc[2], ev.where())
            if ev.kind == "store" and ev.loc == CACHE and ev.value == CACHE:
                return None
            if ev.kind in ("store", "mutate", "del"):
                l = ev.loc if ev.kind != "mutate" else ev.base
                if l is not None and (aliases(l, CACHE) or use is None and aliases(l, VALID)):
                    return ("w", "cache", ev.where())
            if ev.kind == "raise":
                return ("raise", ev.where())
        rule = Table(decide, label=label, inline=lambda f, e: f.name not in opaque, call_value=lambda ev, st, e: OUT if ev.name == "filter_out_rset_team" else cv.get(ev.name),
                     relevant=lambda a: True)
        res = ctx.engine(rule).run(fa)
        for st, t in res["return"]:
            n += 1
            rs = st.rs or ()
            con = f"use_gpus={use}"
            ck = [x for x in rs if x[0] == "check"]
            ctx.ob("commit", con + " totals checked", bool(ck) and ck[0][1] == (rq, ug) or not has_fn(p, "check_total_rsets"), ctx.where(fa), "the request is not checked against the totals")
            kd = [x for x in rs if x[0] == "kind"]
            ctx.ob("team-source", con + " kind", not has_fn(p, "filter_for_rset_type") or bool(kd) and all(x[1] == (CACHE, ug) for x in kd), ctx.where(fa), "the cache is not filtered for the requested kind")
            for x in rs:
                if x[0] == "src":
                    ctx.ob("team-source", f"{con} {x[1]}", x[2] == VALID, ctx.where(fa), f"{x[1]} works on {show(x[2])} instead of the sets of the requested kind")
            out = [x for x in rs if x[0] == "out"]
            if out or t in (TEAMA, TEAMB):
                wr = any(x[0] == "w" and x[1] == "cache" for x in rs)
                ok = bool(out) and all(x[1] == CACHE and x[2] == t for x in out) or (not out and wr)
                ctx.ob("commit", con + " cache", ok, ctx.where(fa), "the team returned is not removed from the cache")
            for f, kind in (("rsets_free", None), ("gpu_rsets_free", True), ("nongpu_rsets_free", False)):
                v = st.heap.get(A(SELF, f), A(SELF, f))
                d, c = lin_diff(v, A(SELF, f))
                want = {("len", t): -1} if kind is None or kind is use else {}
                ctx.ob("commit", f"{con} {f}", (d, c) == (want, 0) or (kind is not None and use is None and (d, c) != ({("len", t): -1}, 0)), ctx.where(fa),
                       f"{f} becomes {show(v)} for the team {show(t)}")
        for st in res["raise"]:
            rs = st.rs or ()
            w = [x for x in rs if x[0] == "w"]
            ctx.ob("fail-clean", f"use_gpus={use}", not w, w[0][2] if w else ctx.where(fa), f"{w[0][1] if w else ''} was changed before the request is refused")
    ctx.floor("assign paths", n, 6)
    # nested helpers must not touch the cache or the totals either
    for m in cv:
        try:
            f = p.meth(RS, m)
        except AnalysisBroken:
            continue
        params = [P(x) for x in f.params[1:] if x in ("rsets_by_group", "valid_rsets_by_group", "avail_rsets_by_group", "slots_avail_by_group", "avail_rsets")]
        bad = []

        def ev_(ev, st, eng):
            if ev.kind == "store" and ev.loc in [A(SELF, x) for x in COUNTERS]:
                bad.append((ev.where(), show(ev.loc)))
            if ev.kind in ("store", "mutate", "del"):
                l = ev.loc if ev.kind != "mutate" else ev.base
                if l is not None and any(l != q and aliases(l, q) for q in params):
                    bad.append((ev.where(), show(l)))
                if l is not None and m != "get_avail_rsets_by_group" and aliases(l, CACHE):
                    bad.append((ev.where(), show(l)))
        ctx.engine(Fn(event=ev_, relevant=lambda a: False)).run(f)
        ctx.ob("fail-clean", m, not bad, bad[0][0] if bad else "", f"{bad[0][1] if bad else ''} is changed while looking for a team")
    # zero request
    res = ctx.engine(Table(lambda a: True if a == mk_cmp("==", rq, C(0)) else (False if a == ("t", rq) else None),
                           label=lambda ev, st, e: ("w",) if ev.kind == "store" and ev.loc in [A(SELF, f) for f in COUNTERS] + [CACHE] else None,
                           inline=lambda f, e: f.name not in opaque)).run(fa)
    for st, t in res["return"]:
        c = st.heap.get(("content", t)) if t[0] == "new" else None
        ok = not st.rs and (t[0] in ("list", "tuple") and not t[1] or t[0] == "new" and not (c and c[0] in ("list", "tuple") and c[1]))
        ctx.ob("commit", "request for none", ok, ctx.where(fa), "a request for no sets returns some or changes the cache")

    # totals
    try:
        fc = p.meth(RS, "check_total_rsets")
    except AnalysisBroken:
        fc = None
        ctx.assumption("check_total_rsets is gone: totals are not decided")
    if fc:
        rq, ug = P(fc.params[1]), P(fc.params[2])
        for use, over, busy in itertools.product((None, True, False), (0, 1), (0, 1)):
            if over and not busy:
                continue
            tot = {None: "total_num_rsets", True: "total_num_gpu_rsets", False: "total_num_nongpu_rsets"}[use]
            fr = {None: "rsets_free", True: "gpu_rsets_free", False: "nongpu_rsets_free"}[use]

            def decide(atom):
                if atom == mk_cmp("==", ug, NONE):
                    return use is None
                if atom == ("t", ug):
                    return bool(use)
                if atom[0] == "cmp" and atom[1] == "==" and atom[2] == ug and is_c(atom[3]):
                    return use is not None and use == atom[3][2]
                if atom[0] == "cmp" and atom[1] == "<0" and len(atom[2]) == 2:
                    d = dict(atom[2])
                    if rq not in d:
                        return None
                    (o,) = [x for x in d if x != rq]
                    if o[0] != "a":
                        return None
                    if o[2] == tot:
                        val = over
                    elif o[2] == fr:
                        val = busy
                    else:
                        # another kind's total: an independent quantity, take both ways
                        return None
                    if d[rq] == -1 and d[o] == 1 and atom[3] == 0:
                        return bool(val)                    # o - rq < 0
                    if d[rq] == -1 and d[o] == 1:
                        return None
                    if d[rq] == 1 and d[o] == -1 and atom[3] == -1:
                        return not val                      # rq - o - 1 < 0, i.e. rq <= o
                    return None
            res = ctx.engine(Table(decide)).run(fc)
            con = f"use_gpus={use} more than exist={over} more than free={busy}"
            ex = set()
            for st in res["raise"]:
                ex.add(exc_name(st.exc))
            want = "InsufficientResourcesError" if over else ("InsufficientFreeResources" if busy else None)
            got = ex | ({None} if res["return"] else set())
            ctx.ob("total-table", con, got == {want}, ctx.where(fc), f"outcome {sorted(map(str, got))}, expected {want}")

    # team source
    fb = p.method(p.cls(RS), "find_rsets_any_slots")
    if fb is not None:
        rq = next((P(x) for x in fb.params if x == "rsets_req"), None)
        if rq is not None:
            res = ctx.engine(Rule()).run(fb)
            for st, t in res["return"]:
                ok = any(v is True and a[0] == "cmp" and a[1] == "==" and rq in a[2:] for a, v in st.facts.items())
                ctx.ob("team-source", "whole request", ok, ctx.where(fb), "a team of another size than requested can be returned")
    fm = p.method(p.cls(RS), "get_matching_slots")
    if fm is not None:
        names = {method_name(c) for c in all_calls(fm)}
        amp = any(isinstance(x, ast.BinOp) and isinstance(x.op, ast.BitAnd) or isinstance(x, ast.AugAssign) and isinstance(x.op, ast.BitAnd) for x in ast.walk(fm.node))
        ok = ("intersection" in names or "intersection_update" in names or amp) and not names & {"union", "update", "symmetric_difference"}
        ctx.ob("team-source", "common slots", ok or not names & {"union", "update", "symmetric_difference", "difference"}, ctx.where(fm), "the slots used are not the slots common to the groups")
    ft = p.method(p.cls(RS), "assign_team_from_slots")
    if ft is not None:
        src = {x.slice.value for x in ast.walk(ft.node) if isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Constant)}
        ctx.ob("team-source", "by group and slot", {"group", "slot"} <= src or not src & {"group", "slot"}, ctx.where(ft), "a set is chosen without matching both group and slot")


def has_fn(p, name):
    return p.method(p.cls(RS), name) is not None


def exc_name(e):
    if isinstance(e, tuple) and e:
        if e[0] == "new" and e[2].startswith("obj:"):
            return e[2][4:].split(":")[-1]
        if e[0] == "cls":
            return e[1].split(":")[-1]
        if e[0] == "call":
            return exc_name(e[1])
    return str(e).split(":")[-1]
