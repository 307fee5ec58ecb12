"""What a worker shows its user functions: resources and identity of the current work order (R03)."""
import ast

from . import check
from .common import *  # noqa
from .comms import Sim, exc_of, isinst
from .cleanup import Flags
from .worker import WK, WORK, INFO, COMM, key_decide, worker_types, calc_handler

WR = LIB + "resources.worker_resources:WorkerResources"
RS = LIB + "resources.resources:Resources"
EX = LIB + "executors.executor:Executor"
TEAM = P("@team")


def _cls_attr(t, cls, attr):
    """t is the class-level attribute <cls>.<attr> (a sub-class of cls counts)."""
    return t is not None and t[0] == "a" and t[2] == attr and t[1][0] == "cls" and t[1][1].split(":")[-1] == cls.split(":")[-1] or \
        t is not None and t[0] == "g" and str(t[1]).endswith(f"{cls.split(':')[-1]}.{attr}")


def _kind(t):
    """Which shared object a base term is: 'resources', 'executor' or None."""
    s = show(t)
    if "worker_resources" in s:
        return "resources"
    if "Executor" in s or "executor" in s:
        return "executor"
    return None


def fields_after(st):
    return {k[2]: v for k, v in st.heap.items() if k[0] == "a" and k[1] == SELF}


@check("R03", "order of effects before every user-function call, definite assignment of the worker's resource attributes with the facts of each path, value flow of slots into the exposed strings, and a sharing scan of the team constructors")
def r03(ctx):
    p = ctx.p
    ctx.rule("order-applied", "before a calculation starts, the order's resource sets are set on the worker's resources, and its process and GPU counts (also when it has none) on the resources and the executor")
    ctx.rule("recomputed", "setting a team that differs from the last one recomputes every attribute that depends on it; a worker without resources keeps none")
    ctx.rule("team-nodes", "the nodes and slots of a worker are those of its team's sets only, each set once, numbered from 0 on each node in the order of the sets")
    ctx.rule("slot-attributes", "slot attributes are set on every path: matching slots are shown only if all nodes have the same ones, the slot count only if all have as many, and none without resource sets")
    ctx.rule("counts", "the process and GPU counts are those of the order, not set ones included")
    ctx.rule("exposed", "the slots written to the environment are the worker's own, multiplied and cut as asked, and GPUs are set only for GPU resource sets")
    ctx.rule("identity", "the worker's resources and executor are set up with the worker's own number and communicator")
    ctx.rule("writers", "only the worker's resource object writes its team, slots and counts")
    ctx.rule("own-objects", "workers that share memory do not share the objects that hold one worker's resources and identity")
    # ------------------------------------------------------------ order applied
    h = calc_handler(p).name
    f = p.meth(WK, "_handle")
    WI = A(A(("g", "Resources.resources"), "x"), "x")  # (never occurs)
    for managed in (True, False):
        for execu in (True, False):
            for given in (True, False):
                for counts in (True, False):
                    kd = key_decide({"rset_team": True if given else None, "libE_info": True, "comm": True, "executor": True, "H_rows": 1,
                                     "num_procs": 2 if counts else None, "num_gpus": 2 if counts else None})

                    def d(atom, st):
                        r = isinst(atom)
                        if r:
                            s = show(r[0])
                            if any(x.endswith("Resources") for x in r[1]):
                                return managed
                            if any(x.endswith("Executor") for x in r[1]):
                                return execu
                        if atom[0] in ("t",) and _kind2(atom[1]):
                            return managed if _kind2(atom[1]) == "resources" else execu
                        if atom[0] == "cmp" and atom[1] == "==" and NONE in atom[2:4]:
                            o = atom[2] if atom[3] == NONE else atom[3]
                            if _kind2(o):
                                return not (managed if _kind2(o) == "resources" else execu)
                        if atom[0] == "any":
                            return counts
                        return kd(atom)

                    def lab(ev, st):
                        if ev.kind == "call" and ev.name == h:
                            return ("handle", st.heap.get(I(INFO, C("rset_team"))))
                        if ev.kind == "call" and ev.name == "set_rset_team" and ev.base is not None:
                            a = ev.args[0] if ev.args else ev.kw.get("rset_team")
                            return ("team", a, st.heap.get(("content", a)) if a is not None and a[0] == "new" else None)
                        if ev.kind == "call" and ev.name == "set_gen_procs_gpus" and ev.base is not None:
                            return ("counts", _kind(ev.base), (list(ev.args) + list(ev.kw.values()) + [NONE])[0])
                    rule = Sim(d, label=lab, inline=lambda g: g.name not in (h, "recv", "prep_calc_dir") and g.cls is not None and g.cls.qual == WK)
                    res = ctx.engine(rule, types=worker_types(p)).run(f, args={f.params[1]: WORK})
                    con = f"resources={'managed' if managed else 'off'} executor={execu} team={'given' if given else 'default'} counts={'given' if counts else 'none'}"
                    ends = [st for st, _ in res["return"]] + list(res["raise"])
                    n = 0
                    for st in ends:
                        rs = st.rs or ()
                        at = [i for i, x in enumerate(rs) if x[0] == "handle"]
                        if not at:
                            continue
                        n += 1
                        pre = rs[:at[0]]
                        tm = [x for x in pre if x[0] == "team"]
                        if not managed:
                            continue
                        own = I(INFO, C("rset_team"))
                        ok = len(tm) >= 1 and (tm[-1][1] == own if given else _empty(tm[-1]) or tm[-1][1] == rs[at[0]][1])
                        ctx.ob("order-applied", con, ok, ctx.where(f), "the calculation starts without the order's resource sets on the worker's resources" + (f" (set: {show(tm[-1][1])})" if tm else ""))
                        cs = {x[1] for x in pre if x[0] == "counts" and x[2] == INFO}
                        ctx.ob("order-applied", con + " counts", "resources" in cs, ctx.where(f), "the calculation starts without the order's process and GPU counts on the worker's resources (those of an earlier order remain)")
                        if execu:
                            ctx.ob("order-applied", con + " executor counts", "executor" in cs, ctx.where(f), "the calculation starts without the order's process and GPU counts on the executor (those of an earlier order remain)")
                    ctx.floor(f"calculations started, {con}", n, 1)
    recompute(ctx)
    team_nodes(ctx)
    slot_attributes(ctx)
    counts_kept(ctx)
    exposed(ctx)
    identity(ctx)
    writers(ctx)
    own_objects(ctx)


def _kind2(t):
    if _cls_attr(t, RS, "resources"):
        return "resources"
    if _cls_attr(t, EX, "executor"):
        return "executor"
    return None


def _empty(lbl):
    a, content = lbl[1], lbl[2]
    return a is not None and (a == ("list", ()) or a == ("tuple", ()) or a[0] == "new" and a[2] == "list" and content in (None, ("list", ()), ("tuple", ()), ("clist", ())) or a[0] == "clist" and not a[1])


def recompute(ctx):
    p = ctx.p
    f = p.method(p.cls(WR), "set_rset_team")
    team = P(f.params[1])
    OLD = {}
    for zero in (True, False):
        for same in (True, False):
            def d(atom, st):
                if atom[0] == "cmp" and atom[1] == "in" and atom[2] == A(SELF, "workerID"):
                    return zero
                if atom[0] == "cmp" and atom[1] == "==" and set(atom[2:4]) == {team, A(SELF, "rset_team")}:
                    return same

            def lab(ev, st):
                if ev.kind == "call" and ev.name == "get_local_nodelist":
                    return ("nodes", tuple(ev.args) + tuple(v for _, v in sorted(ev.kw.items())))
                if ev.kind == "call" and ev.name == "set_slot_count":
                    return ("slots", st.heap.get(A(SELF, "slots")))
                if ev.kind == "store" and ev.loc[0] == "a" and ev.loc[1] == SELF:
                    return ("store", ev.loc[2])
            NODES, SLOTS = P("@nodes"), P("@slots")
            rule = Sim(d, label=lab, limit=40, result=lambda ev, st: ("tuple", (NODES, SLOTS)) if ev.name == "get_local_nodelist" else None,
                       inline=lambda g: g.name not in ("get_local_nodelist", "set_slot_count") and g.cls is not None and g.cls.qual == WR)
            res = ctx.engine(rule).run(f, args={f.params[1]: team}, cls=p.cls(WR))
            con = f"worker {'without' if zero else 'with'} resources, {'same' if same else 'another'} team"
            ends = [st for st, _ in res["return"]]
            ctx.ob("recomputed", con + " ends", bool(ends) and not res["raise"], ctx.where(f), "setting the team does not end normally")
            for st in ends:
                rs = st.rs or ()
                after = fields_after(st)
                w = {x[1] for x in rs if x[0] == "store"}
                if zero:
                    ctx.ob("recomputed", con, "rset_team" not in w or after.get("rset_team") not in (team,), ctx.where(f), "a worker without resources gets a team")
                    continue
                eq = [v for a, v in st.facts.items() if a[0] == "cmp" and a[1] == "==" and set(a[2:4]) == {team, A(SELF, "rset_team")}]
                if same:
                    if "rset_team" not in w:
                        continue  # nothing to do
                elif "rset_team" not in w and not eq:
                    ctx.ob("recomputed", con, False, ctx.where(f), "the new team is not set")
                    continue
                ctx.ob("recomputed", con + " team", after.get("rset_team") == team, ctx.where(f), "the new team is not set" if "rset_team" not in w else f"the team becomes {show(after['rset_team'])}")
                ctx.ob("recomputed", con + " number", lin_eq(after.get("num_rsets", NONE), ("len", team)), ctx.where(f), "the number of resource sets is not that of the new team")
                nd = [x for x in rs if x[0] == "nodes"]
                want = (A(SELF, "workerID"), team, A(SELF, "split_list"), A(SELF, "rsets_per_node"))
                ok = len(nd) >= 1 and {team if x == A(SELF, "rset_team") else x for x in nd[-1][1]} >= {team, A(SELF, "split_list")}
                ctx.ob("recomputed", con + " nodes", ok and after.get("local_nodelist") == NODES and after.get("slots") == SLOTS, ctx.where(f), "the nodes and slots are not those of the new team")
                ctx.ob("recomputed", con + " node count", lin_eq(after.get("local_node_count", NONE), ("len", NODES)), ctx.where(f), "the node count is not that of the new nodes")
                sc = [i for i, x in enumerate(rs) if x[0] == "slots"]
                ctx.ob("recomputed", con + " slot attributes", bool(sc) and rs[sc[-1]][1] == SLOTS, ctx.where(f), "the slot attributes are not computed from the new slots")


def team_nodes(ctx):
    p = ctx.p
    f = p.method(p.cls(WR), "get_local_nodelist")
    wid, team, split = P(f.params[0]), P(f.params[1]), P(f.params[2])
    per = P(f.params[3]) if len(f.params) > 3 else None
    got = {"n": 0}

    def is_idx(t):
        return t[0] == "elem" and t[1] == team

    def event(ev, st, eng):
        """Every slot added to a node's list."""
        val = node = None
        if ev.kind == "mutate" and ev.name in ("append", "extend", "insert") and ev.base is not None and ev.args:
            val, node = ev.args[-1], ev.base
            if ev.name == "append" and node[0] == "i":
                val, node = ev.args[0], node[2]
            elif ev.name == "append" and callname(node) in (".setdefault",) and len(node[2]) > 1:
                val, node = ev.args[0], node[2][1]
            else:
                return
        if val is None:
            return
        idx = [x for x in subterms(node) if is_idx(x)]
        got["n"] += 1
        con = f"slot at line {ev.line if hasattr(ev, 'line') else ''}"
        if not idx:
            ctx.ob("team-nodes", "node", False, ev.where(), f"a slot is added to {show(node)[:80]}, which is not a node of a set of the team")
            return
        i = idx[0]
        mine = I(split, i)
        ctx.ob("team-nodes", "node", contains(node, mine), ev.where(), "a slot is added to a node that is not one of the set's nodes")
        several = [v for a, v in st.facts.items() if a[0] == "cmp" and a[1] == "<0" and any(x == ("len", mine) for x in subterms(a))]
        v = strip_deep(val)
        if v == C(0):
            one = [(a, v2) for a, v2 in st.facts.items() if a[0] == "cmp" and any(x == ("len", mine) for x in subterms(a))]
            ctx.ob("team-nodes", "slot 0", bool(one), ev.where(), "slot 0 is used although the set may share its node")
            for a, v2 in one:
                try:
                    m2 = bool(rowval(a, lambda t: 2 if t == ("len", mine) else NOVAL))
                    m1 = bool(rowval(a, lambda t: 1 if t == ("len", mine) else NOVAL))
                except Unk:
                    continue
                ctx.ob("team-nodes", "slot 0", m1 != m2 and m2 == v2, ev.where(), "slot 0 is used for a set that shares its node")
        else:
            # first set of the same node: split.index(mine)
            first = [x for x in subterms(v) if callname(x) == ".index" and x[2] and x[2][0] == split and len(x[2]) > 1 and x[2][1] == mine]
            ok = bool(first) and lin_eq(v, ("b", "-", i, first[0])) if first else None
            if ok is None:
                roots = {y[1] for y in subterms(v) if y[0] == "p"}
                known = {team[1], wid[1]} | ({per[1]} if per else set())
                if roots <= known or not contains(v, i):  # a function of the set's number alone
                    ctx.ob("team-nodes", "slot number", False, ev.where(), f"the slot {show(v)[:80]} is not the set's place on its node (nodes may hold different numbers of sets)")
                else:
                    ctx.assumption(f"slot {show(v)[:80]} is not understood")
            else:
                ctx.ob("team-nodes", "slot number", ok, ev.where(), f"the slot {show(v)[:80]} is not the set's place on its node")
    rule = Fn(event=event, inline=lambda g, e: False, relevant=lambda a: True)
    res = ctx.engine(rule).run(f)
    ctx.floor("slots added", got["n"], 1)


def slot_attributes(ctx):
    p = ctx.p
    f = p.method(p.cls(WR), "set_slot_count")
    SL = A(SELF, "slots")
    ATT = ("even_slots", "matching_slots", "slots_on_node", "slot_count")
    n = 0
    for empty in (True, False):
        def d(atom, st):
            if atom == ("t", SL) or atom == ("t", ("len", SL)):
                return not empty
            if atom == mk_cmp("==", SL, NONE):
                return False
        both = lambda a: a[0] == "cmp" and a[1] == "==" and all(any(y == SL for y in subterms(x)) for x in a[2:4])
        lens = lambda a: a[0] == "cmp" and any(x[0] == "len" and contains(x, SL) for x in subterms(a))

        def lab(ev, st):
            if ev.kind == "iterend" and isinstance(ev.node, ast.For) and ev.extra is not None and contains(ev.extra, SL):
                eq = any(both(a) and not lens(a) and v is True for a, v in st.facts.items())
                ln = any(both(a) and lens(a) and v is True for a, v in st.facts.items())
                return ([] if eq else [("+", "unmatched")]) + ([] if eq or ln else [("+", "uncounted")])
        res = ctx.engine(Flags(d, relevant=lambda a: True, label=lab)).run(f, cls=p.cls(WR))
        for st, _ in res["return"]:
            n += 1
            after = fields_after(st)
            con = "no resource sets" if empty else "slots"
            for a in ATT:
                ctx.ob("slot-attributes", f"{con} {a}", a in after, ctx.where(f), f"{a} is left as it was for an earlier team")
            if any(a not in after for a in ATT):
                continue
            if empty:
                v = after["slots_on_node"]
                ctx.ob("slot-attributes", con + " shown", v == NONE or _empty(("", v, st.heap.get(("content", v)))), ctx.where(f), f"slots {show(v)} are shown without resource sets")
                continue

            def tv(t):
                if t in (TRUE, FALSE):
                    return t == TRUE
                if t[0] == "call" and callname(t) == "bool" and t[2]:
                    return tv(t[2][0])
                return st.facts.get(("t", t))
            m, e = tv(after["matching_slots"]), tv(after["even_slots"])
            diff_len = [a for a, v in st.facts.items() if both(a) and lens(a) and v is False]
            diff = [a for a, v in st.facts.items() if both(a) and not lens(a) and v is False]
            if m is False:
                ctx.ob("slot-attributes", "not matching", after["slots_on_node"] == NONE, ctx.where(f), "slots are shown although the nodes do not have the same ones")
            if m is True:
                ctx.ob("slot-attributes", "matching", after["slots_on_node"] != NONE and contains(after["slots_on_node"], SL), ctx.where(f), "the slots shown are not those of a node of the worker")
                ctx.ob("slot-attributes", "matching compared", "unmatched" not in (st.rs or ()), ctx.where(f), "nodes count as matching without their slots having been compared")
                ctx.ob("slot-attributes", "matching nodes", not diff and not diff_len, ctx.where(f), "nodes with different slots count as matching")
            if e is False:
                ctx.ob("slot-attributes", "not even", after["slot_count"] == NONE, ctx.where(f), "a slot count is shown although the nodes have different numbers of slots")
            if e is True:
                ctx.ob("slot-attributes", "even", after["slot_count"] != NONE, ctx.where(f), "no slot count is shown")
                ctx.ob("slot-attributes", "even compared", "uncounted" not in (st.rs or ()), ctx.where(f), "nodes count as even without their numbers of slots having been compared")
                ctx.ob("slot-attributes", "even nodes", not diff_len, ctx.where(f), "nodes with different numbers of slots count as even")
    ctx.floor("ends of set_slot_count", n, 2)


def counts_kept(ctx):
    p = ctx.p
    n = 0
    users = [c for c in p.classes.values() if "set_gen_procs_gpus" in c.methods]
    for c in users:
        f = c.methods["set_gen_procs_gpus"]
        reads = {a for k in [c] for g in k.methods.values() if g.name != "__init__" for x in ast.walk(g.node) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and x.attr in ("gen_nprocs", "gen_ngpus") for a in (x.attr,)}
        if not reads and not any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) for x in ast.walk(f.node)):
            continue  # does not use them (base executor)
        info = P(f.params[1])
        for have in (True, False):
            kd = key_decide({"num_procs": 3 if have else None, "num_gpus": 2 if have else None})
            res = ctx.engine(Sim(lambda a, st: kd(a))).run(f, cls=c)
            for st, _ in res["return"]:
                after = fields_after(st)
                for att, key in (("gen_nprocs", "num_procs"), ("gen_ngpus", "num_gpus")):
                    n += 1
                    v = after.get(att)
                    want = I(info, C(key)) if have else NONE
                    ok = v == want or v is not None and callname(v) == ".get" and v[2][:2] == (info, C(key)) and (len(v[2]) == 2 or v[2][2] == NONE)
                    ctx.ob("counts", f"{c.name} {att} {'given' if have else 'not given'}", ok, ctx.where(f), f"{att} becomes {show(v) if v else 'what it was for an earlier order'}")
    ctx.floor("count attributes", n, 8)


def exposed(ctx):
    p = ctx.p
    c = p.cls(WR)
    f = p.method(c, "get_slots_as_string")
    mult, delim, lim = P("multiplier"), P("delimiter"), P("limit")
    SON = A(SELF, "slots_on_node")
    TPG = A(SELF, "tiles_per_gpu")
    joined = {"n": 0}
    for limit in (True, False):
        def d(atom, st):
            if atom[0] == "cmp" and atom[1] == "==" and NONE in atom[2:4]:
                o = atom[2] if atom[3] == NONE else atom[3]
                if o == lim:
                    return not limit
                if o == SON:
                    return False
            if atom == ("t", SON):
                return True
            if atom == ("t", lim):
                return limit

        puts, ran = {}, []

        def put(ev, st):
            if ev.kind == "mutate" and ev.name in ("append", "extend") and ev.args:
                puts.setdefault(nosite(ev.base), []).append(ev.args[0])
            if ev.kind in ("iter", "loop") and ev.extra is not None and contains(ev.extra, SON):
                ran.append(1)
        res = ctx.engine(Sim(d, relevant=lambda a: True, label=put)).run(f, cls=c)
        ways = []
        for st, v in res["return"]:
            if v != NONE and (any(x[0] == "new" for x in subterms(v)) or ran and not contains(v, SON)):
                v = ("tuple", (v,) + tuple(y for x in puts.values() for y in x))  # a list built step by step
            ways.append((st, v))
        for st, v in ways:
            if v == NONE:
                ctx.ob("exposed", f"string, limit={limit}", False, ctx.where(f), "the slots of a worker that has some are not given")
                continue
            joined["n"] += 1
            ctx.ob("exposed", f"string, limit={limit} own slots", contains(v, SON), ctx.where(f), f"the string {show(v)[:100]} is not made from the worker's slots")
            ctx.ob("exposed", f"string, limit={limit} delimiter", contains(v, delim), ctx.where(f), "the delimiter asked for is not used")
            cut = [x for x in subterms(v) if x[0] == "s" and len(x) > 2 and x[1] == NONE and x[2] == lim]
            ctx.ob("exposed", f"string, limit={limit} cut", bool(cut) == limit, ctx.where(f), "the number of slots is not cut to the limit" if limit else "the slots are cut although there is no limit")
            for x in subterms(v):
                if callname(x) == "range" or x[0] == "range":
                    a = x[2] if x[0] == "call" else x[1:]
                    if len(a) >= 2:
                        el = [y for y in subterms(a[0]) if y[0] == "elem" and contains(y[1], SON)]
                        if el:
                            ok = all(_num(a[0], {el[0]: e, mult: m}) == e * m and _num(a[1], {el[0]: e, mult: m}) == (e + 1) * m for e in (0, 1, 3) for m in (1, 2, 5))
                            ctx.ob("exposed", "items of a slot", ok, ctx.where(f), f"a slot stands for the items {show(x)[:90]}, not for its own")
    ctx.floor("slot strings", joined["n"], 2)
    # GPU variable
    g = p.method(c, "set_env_to_gpus")
    GPU = A(SELF, "gpus_per_rset_per_node")
    for own in (True, False):
        def d2(atom, st):
            if callname(atom[1]) in (".doihave_gpus",) if atom[0] == "t" else False:
                return own
            if atom[0] == "t" and "doihave_gpus" in show(atom[1]):
                return own
            if atom == ("t", A(SELF, "matching_slots")):
                return True

        def lab(ev, st):
            if ev.kind == "call" and ev.name == "get_slots_as_string":
                return ("slots", tuple(sorted(args_of(ev, f).items())))
            if ev.kind == "store" and ev.loc[0] == "i" and "environ" in show(ev.loc[1]):
                return ("env", ev.value)
            if ev.kind == "call" and ev.name in ("putenv", "update", "setdefault") and "os" in show(ev.base or ev.extra or NONE):
                return ("env", None)
        STR = P("@string")
        res = ctx.engine(Sim(d2, label=lab, result=lambda ev, st: STR if ev.name == "get_slots_as_string" else None,
                             inline=lambda x: x.name not in ("get_slots_as_string", "doihave_gpus"))).run(g, cls=c)
        ends = res["return"]
        ctx.ob("exposed", f"GPUs {'of' if own else 'without'} GPU sets ends", bool(ends), ctx.where(g), "setting the GPU variable never ends")
        for st, _ in ends:
            rs = st.rs or ()
            env = [x for x in rs if x[0] == "env"]
            if not own:
                ctx.ob("exposed", "GPUs without GPU sets", not env, ctx.where(g), "GPUs are set for a worker whose resource sets have none")
                continue
            ctx.ob("exposed", "GPUs of GPU sets", len(env) == 1 and env[0][1] == STR, ctx.where(g), "the GPU variable is not set to the worker's slots")
            sl = [dict(x[1]) for x in rs if x[0] == "slots"]
            ctx.ob("exposed", "GPUs per set", len(sl) == 1 and sl[0].get("multiplier") == GPU and sl[0].get("limit") == A(SELF, "gen_ngpus"), ctx.where(g), "the GPUs are not those of the worker's sets, cut to the number the order asks for")
    # slots variable
    s = p.method(c, "set_env_to_slots")
    res = ctx.engine(Sim(label=lambda ev, st: ("slots", tuple(sorted(args_of(ev, f).items()))) if ev.kind == "call" and ev.name == "get_slots_as_string" else ("env", ev.loc[2], ev.value) if ev.kind == "store" and "environ" in show(ev.loc[1]) else None,
                         result=lambda ev, st: P("@string") if ev.name == "get_slots_as_string" else None, inline=lambda x: x.name != "get_slots_as_string")).run(s, cls=c)
    for st, _ in res["return"]:
        rs = st.rs or ()
        env = [x for x in rs if x[0] == "env"]
        sl = [dict(x[1]) for x in rs if x[0] == "slots"]
        ctx.ob("exposed", "slots variable", len(env) == 1 and env[0][1:] == (P("env_var"), P("@string")), ctx.where(s), "the given variable is not set to the worker's slots")
        ctx.ob("exposed", "slots arguments", len(sl) == 1 and sl[0].get("multiplier") == P("multiplier") and sl[0].get("delimiter") == P("delimiter"), ctx.where(s), "the multiplier or delimiter given is not used")
    # has GPUs
    hg = p.method(c, "doihave_gpus")
    T = A(SELF, "rset_team")
    for have in (True, False):
        res = ctx.engine(Sim(lambda a, st: have if a == ("t", T) else None)).run(hg, cls=c)
        for st, v in res["return"]:
            if have:
                ctx.ob("exposed", "GPU sets", contains(v, T) and any(x == C("gpus") for x in subterms(v)), ctx.where(hg), f"whether the worker has GPUs is {show(v)}")
            else:
                ctx.ob("exposed", "GPU sets, no team", v == FALSE or v == NONE, ctx.where(hg), "a worker without resource sets has GPUs")


def _num(t, vals):
    """Value of a polynomial term at a point (the terms are of degree two at most: a grid of three by three points decides equality)."""
    if t in vals:
        return vals[t]
    if is_c(t) and isinstance(t[2], (int, float)):
        return t[2]
    if t[0] == "b" and len(t) == 4:
        x, y = _num(t[2], vals), _num(t[3], vals)
        if x is None or y is None:
            return None
        return {"+": x + y, "-": x - y, "*": x * y}.get(t[1])
    return None


def identity(ctx):
    p = ctx.p
    f = p.meth(WK, "__init__")
    wid, comm = P("workerID"), P("comm")
    for managed in (True, False):
        for execu in (True, False):
            def d(atom, st):
                r = isinst(atom)
                if r:
                    if any(x.endswith("Resources") for x in r[1]):
                        return managed
                    if any(x.endswith("Executor") for x in r[1]):
                        return execu
                if atom[0] == "t" and _kind2(atom[1]):
                    return managed if _kind2(atom[1]) == "resources" else execu
                if atom[0] == "cmp" and atom[1] == "==" and NONE in atom[2:4]:
                    o = atom[2] if atom[3] == NONE else atom[3]
                    if _kind2(o):
                        return not (managed if _kind2(o) == "resources" else execu)

            def lab(ev, st):
                if ev.kind == "call" and ev.name == "set_worker_info":
                    return ("executor", frozenset(list(ev.args) + list(ev.kw.values())))
                if ev.kind == "call" and ev.name == "set_worker_resources":
                    return ("resources", frozenset(list(ev.args) + list(ev.kw.values())))
            res = ctx.engine(Sim(d, label=lab, havoc=False, inline=lambda g: g.cls is not None and g.cls.qual == WK)).run(f, cls=p.cls(WK))
            ends = [st for st, _ in res["return"]]
            ctx.ob("identity", "worker set up", bool(ends), ctx.where(f), "a worker cannot be set up")
            for st in ends:
                rs = st.rs or ()
                con = f"resources={managed} executor={execu}"
                after = fields_after(st)
                ctx.ob("identity", "own number and communicator", after.get("workerID") == wid and after.get("comm") == comm, ctx.where(f), "the worker does not keep its own number and communicator")
                if execu:
                    ex = [x[1] for x in rs if x[0] == "executor"]
                    ctx.ob("identity", con + " executor", len(ex) >= 1 and {wid, comm} <= ex[-1], ctx.where(f), "the executor does not get the worker's number and communicator")
                if managed:
                    rr = [x[1] for x in rs if x[0] == "resources"]
                    ctx.ob("identity", con + " resources", len(rr) >= 1 and wid in rr[-1] and any(callname(nosite(x)) == ".get_num_workers" for x in rr[-1]), ctx.where(f), "the resources are not set up for the worker's number among all workers")
    # the setters
    g = p.method(p.cls(RS), "set_worker_resources")
    res = ctx.engine(Sim(inline=lambda x: False)).run(g, cls=p.cls(RS))
    for st, _ in res["return"]:
        v = fields_after(st).get("worker_resources")
        k = st.heap.get(("ctor", v)) if v is not None else None
        ok = v is not None and v[0] == "new" and v[2] == "obj:" + WR
        ctx.ob("identity", "set_worker_resources", ok and k is not None and [x for x in k[1] if x[0] != "kwarg"] == [P(g.params[1]), A(SELF, "glob_resources"), P(g.params[2])] or ok and k is not None and any(x[0] == "kwarg" for x in k[1]),
               ctx.where(g), "the worker's resources are not made for the given worker from the run's resources")
    for c in [p.cls(EX)] + list(p.subclasses(p.cls(EX))):
        g = p.method(c, "set_worker_info")
        res = ctx.engine(Sim(inline=lambda x: True)).run(g, cls=c)
        for st, _ in res["return"]:
            a = fields_after(st)
            ctx.ob("identity", f"{c.name}.set_worker_info", a.get("workerID") == P(g.params[2]) and a.get("comm") == P(g.params[1]), ctx.where(g), "the executor does not keep the worker's number and communicator")
    # worker_main uses what it was given
    m = p.funcs[LIB + "worker:worker_main"]
    seen = set()

    def lab(ev, st):
        if ev.kind == "store" and _kind2(ev.loc):
            return ("set", _kind2(ev.loc), ev.value)
        if ev.kind == "call" and ev.callee and ev.callee.endswith(":Worker"):
            return ("worker", tuple(ev.args) + tuple(ev.kw.values()))
    for given in (True, False):
        def d(atom, st):
            if atom[0] == "cmp" and atom[1] == "==" and NONE in atom[2:4]:
                o = atom[2] if atom[3] == NONE else atom[3]
                if o in (P("resources"), P("executor")):
                    return not given
            if atom in (("t", P("resources")), ("t", P("executor"))):
                return given
            if atom[0] == "cmp" and atom[1] == "==" and any(is_c(x) for x in atom[2:4]) and any("recv" in show(x) for x in atom[2:4]):
                return False
            if atom == ("t", P("workerID")):
                return True
        res = ctx.engine(Sim(d, label=lab, inline=lambda x: x.module.name == LIB + "worker" and x.cls is None)).run(m)
        n = 0
        for st, _ in res["return"]:
            rs = st.rs or ()
            w = [i for i, x in enumerate(rs) if x[0] == "worker"]
            if not w:
                continue
            n += 1
            ctx.ob("identity", "worker's own number", P("workerID") in rs[w[0]][1] and P("comm") in rs[w[0]][1], ctx.where(m), "the worker is not made with its own number and communicator")
            if given:
                for kind in ("resources", "executor"):
                    s = [x for x in rs[:w[0]] if x[0] == "set" and x[1] == kind]
                    ctx.ob("identity", f"given {kind}", len(s) >= 1 and s[-1][2] == P(kind), ctx.where(m), f"the {kind} passed to the worker are not the ones it uses")
            else:
                ctx.ob("identity", "none given", not [x for x in rs if x[0] == "set"], ctx.where(m), "the resources or executor set up already are replaced although none are passed")
        ctx.floor("worker_main paths that make a worker", n, 1)


OWNED = ("rset_team", "slots", "slots_on_node", "local_nodelist", "gen_nprocs", "gen_ngpus", "slot_count", "even_slots", "matching_slots")


def writers(ctx):
    p = ctx.p
    n = 0
    for f in p.funcs.values():
        for node in ast.walk(f.node):
            if isinstance(node, ast.Attribute) and isinstance(node.ctx, (ast.Store, ast.Del)) and node.attr in OWNED:
                own = isinstance(node.value, ast.Name) and f.params and node.value.id == f.params[0] and f.cls is not None
                base = ast.unparse(node.value)
                if own and f.cls.qual == WR:
                    n += 1
                    continue
                if "wres" in base or "worker_resources" in base:
                    ctx.ob("writers", f"{f.qual} {node.attr}", False, f"{f.module.path}:{node.lineno}", f"{node.attr} of the worker's resources is written from outside")
    ctx.floor("attributes written by WorkerResources", n, 6)


def own_objects(ctx):
    p = ctx.p
    f = p.funcs.get(LIB + "libE:start_proc_team")
    if f is None:
        raise AnalysisBroken("libE.start_proc_team is gone")
    THREAD = LIB + "comms.comms:QCommThread"
    shared = {}
    COMMS = I(P("libE_specs"), C("comms"))

    def d(atom, st):
        if atom[0] == "cmp" and atom[1] == "==" and COMMS in atom[2:4]:
            o = atom[2] if atom[3] == COMMS else atom[3]
            return o == C("threads") if is_c(o) else None
        if atom[0] == "cmp" and atom[1] == "in" and atom[2] == COMMS:
            return None

    n = {"t": 0}

    def lab(ev, st):
        if ev.kind == "call" and (ev.callee == THREAD or ev.extra == ("cls", THREAD)):
            n["t"] += 1
            for a in list(ev.args) + list(ev.kw.values()):
                k = _kind2(a)
                if k:
                    shared[k] = ev.where()
        return None
    ctx.engine(Sim(d, label=lab, inline=lambda g: g.module.name == LIB + "libE" and "kill" not in g.name)).run(f)
    ctx.floor("thread workers made", n["t"], 1)
    for k, what in (("resources", "the object that holds one worker's resources"), ("executor", "the executor, which holds one worker's number and communicator")):
        ctx.ob("own-objects", f"thread workers {k}", k not in shared, shared.get(k, ctx.where(f)), f"all thread workers are given the same {k} object ({what})")
