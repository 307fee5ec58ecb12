"""MPI runners, launch retries and platform descriptions (E03, E05)."""
import ast
import re

from . import check
from .common import *  # noqa
from .comms import Sim, exc_of
from .execs import EXEC, LA, TASK, atr

MR = LIB + "executors.mpi_runner:MPIRunner"
ME = LIB + "executors.mpi_executor:MPIExecutor"
PF = LIB + "resources.platforms"
MRES = LIB + "resources.mpi_resources"
NAMES = ("mpich", "openmpi", "aprun", "srun", "jsrun", "msmpi", "custom")
PLACES = {"mpich": "hostlist", "openmpi": "machinefile", "aprun": "hostlist", "srun": "hostlist"}   # how the assigned nodes reach the launcher
OPTION = ("option_gpus_per_node", "option_gpus_per_task")
SETTINGS = ("runner_default", "env") + OPTION
CMD, PI = P("@command"), P("@platform")


def lit(t, st):
    """Content of a tracked or literal sequence of terms, or None."""
    if t is None:
        return None
    if t[0] in ("tuple", "list", "clist"):
        return tuple(t[1])
    c = st.heap.get(("content", t))
    return tuple(c[1]) if c is not None and c[0] in ("tuple", "list", "clist") else None


def dct(t, st):
    """Constant-keyed dictionary content {key: term}, or None."""
    if t is None or t[0] != "new" or ("partial", t) in st.heap:
        return None
    return {k[2][2]: v for k, v in st.heap.items() if k[0] == "i" and k[1] == t and is_c(k[2]) and v[0] != "deleted"}


def runner_classes(ctx):
    """{documented name: class} as MPIRunner.get_runner makes them, with the obligations of the table."""
    p = ctx.p
    f = p.meth(MR, "get_runner")
    pn = list(f.params)
    if len(pn) < 3:
        raise AnalysisBroken("MPIRunner.get_runner no longer takes type, command and platform")
    out = {}
    for name in NAMES:
        for cmd in (NONE, CMD):
            def d(atom, st):
                if atom[0] == "cmp" and atom[1] == "==" and CMD in atom[2:4] and NONE in atom[2:4]:
                    return False
                if atom == ("t", CMD):
                    return True

            def label(ev, st):
                q = p.classes.get(ev.callee) if ev.callee else None
                if ev.kind == "call" and q is not None and p.cls(MR) in p.mro(q):
                    i = p.method(q, "__init__")
                    return ("make", q, tuple(sorted(args_of(ev, i).items())))
            res = ctx.engine(Sim(d, label=label, inline=lambda g: g.name != "__init__")).run(f, args={pn[0]: C(name), pn[1]: cmd, pn[2]: PI})
            made = {x for st, _ in res["return"] for x in st.rs or () if x[0] == "make"}
            con = f"{name} {'with' if cmd == CMD else 'without'} command"
            one = len({x[1].qual for x in made}) == 1 and not res["raise"]
            ctx.ob("reachable", con, one, ctx.where(f), "the documented name does not make one runner")
            if not one:
                continue
            q, kw = next(iter(made))[1], dict(next(iter(made))[2])
            ctx.ob("reachable", con + " platform", kw.get("platform_info") == PI, ctx.where(f), "the runner is made without the platform information")
            ctx.ob("reachable", con + " command", (kw.get("run_command") == CMD if cmd == CMD else "run_command" not in kw or is_strc(kw["run_command"]) and bool(kw["run_command"][2])), ctx.where(f), f"the runner's command is {show(kw['run_command']) if kw.get('run_command') else 'the default'}")
            if out.setdefault(name, q) is not q:
                ctx.ob("reachable", con, False, ctx.where(f), "the runner depends on the command")
    qs = [c.qual for c in out.values()]
    ctx.ob("reachable", "distinct", len(set(qs)) == len(qs), ctx.where(f), "two documented names make the same runner")
    return out


def runner_init(ctx, c):
    """Heap after the constructor of runner class c (a copy over self attributes) and its state."""
    i = ctx.p.method(c, "__init__")
    res = ctx.engine(Sim(label=lambda ev, st: None)).run(i, cls=c, args={"run_command": CMD, "platform_info": PI})
    if len(res["return"]) != 1:
        raise AnalysisBroken(f"constructor of {c.qual} has {len(res['return'])} ends")
    st = res["return"][0][0]
    return {k[2]: v for k, v in st.heap.items() if k[0] == "a" and k[1] == SELF}, st, i


def piece(t):
    """Constant text of a command item, or the command itself."""
    return t[2] if is_c(t) else None


@check("E03", "exhaustive evaluation of the runner table, of every runner's constructor against the launch description, of the GPU assignment over (runner, setting, name, request), and of the launch loop over launch outcomes")
def e03(ctx):
    p = ctx.p
    ctx.rule("reachable", "every documented launcher name makes its own runner, given the user's command exactly when there is one, and the platform information")
    ctx.rule("attributes", "every runner defines each attribute the shared launch code reads")
    ctx.rule("placeholders", "every placeholder of a runner's command is filled from the launch description; processes and extra arguments are always there, and assigned nodes where the launcher takes them")
    ctx.rule("options", "the option a runner writes for processes, nodes or processes per node is one it recognises in the user's extra arguments, so that none is given twice")
    ctx.rule("gpu-table", "a GPU request becomes either one command-line setting or one environment setting, chosen by platform setting, then runner default, then the environment; the name given by the platform is used; no request for GPUs sets neither")
    ctx.rule("description", "user choices survive into the launch description: a supported machine file is used as given, an option in the extra arguments is not repeated")
    ctx.rule("retries", "launching is tried again only after a failure and at most the configured number of times, from a reset task; a task that never started ends as failed to start")
    ctx.rule("submit", "a dry run launches nothing and is complete, any other submission launches exactly once and records the task")
    classes = runner_classes(ctx)
    ctx.floor("runner classes", len(classes), 7)
    base = p.cls(MR)
    known = [c for c in p.classes.values() if base in p.mro(c)]
    inits = {c.qual: runner_init(ctx, c) for c in known}
    # ---- attributes read by the shared code
    anyset = set().union(*[set(h) for h, _, _ in inits.values()])
    methods = {n for c in known for n in c.methods}
    reads = {}
    for c in known:
        for g in c.methods.values():
            if g.name == "__init__":
                continue
            for x in ast.walk(g.node):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" and isinstance(x.ctx, ast.Load) and x.attr not in methods:
                    for k in known:
                        if p.method(k, g.name) is g:
                            reads.setdefault(k.qual, {}).setdefault(x.attr, f"{g.module.path}:{x.lineno}")
    for x in ast.walk(p.module(LIB + "executors.mpi_executor").tree):
        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id != "self" and x.attr in anyset:
            for k in known:
                reads.setdefault(k.qual, {}).setdefault(x.attr, f"{p.module(LIB + 'executors.mpi_executor').path}:{x.lineno}")
    n = 0
    for q, rd in reads.items():
        h, _, i = inits[q]
        for a, wh in sorted(rd.items()):
            n += 1
            ctx.ob("attributes", f"{q.split(':')[1]}.{a}", a in h or any(a in k.attr_types and False for k in ()), wh, f"{q.split(':')[1]} never sets {a}, which the launch code reads")
    ctx.floor("attribute reads", n, 60)
    # ---- launch description
    specs_f = p.meth(MR, "get_mpi_specs")
    keys = description(ctx, specs_f)
    # ---- commands
    for name, c in classes.items():
        h, st, i = inits[c.qual]
        wh = ctx.where(i)
        items = lit(h.get("mpi_command"), st)
        if items is None:
            ctx.ob("placeholders", name, False, wh, "the runner's command is not a list of parts")
            continue
        ctx.ob("placeholders", f"{name} command first", bool(items) and items[0] == CMD, wh, "the command does not start with the launcher")
        seen = []
        for t in items:
            s = piece(t)
            if s is None:
                continue
            ph = re.findall(r"\{(\w+)\}", s)
            seen += ph
            for x in ph:
                ctx.ob("placeholders", f"{name} {{{x}}}", x in keys or x == "env", wh, f"no launch description ever fills {{{x}}}: the part '{s}' is always dropped")
                arg = {"num_procs": "arg_nprocs", "num_nodes": "arg_nnodes", "procs_per_node": "arg_ppn"}.get(x)
                if arg:
                    opts = [piece(y) for y in lit(h.get(arg), st) or ()]
                    ctx.ob("options", f"{name} {x}", s.split()[0] in opts, wh, f"'{s.split()[0]}' is written for {x} but recognised are {opts}")
        for x in ("extra_args",) + (("num_procs",) if name != "custom" else ()) + ((PLACES[name],) if name in PLACES else ()):
            ctx.ob("placeholders", f"{name} has {x}", x in seen, wh, f"the command has no place for {x}")
        ctx.ob("placeholders", f"{name} once", len(set(seen)) == len(seen), wh, "a value is put into the command twice")
        if h.get("mfile_support") == TRUE:
            ctx.ob("placeholders", f"{name} machinefile", "machinefile" in seen, wh, "machine files are supported but the command has no place for one")
        opts = [set(map(piece, lit(h.get(a), st) or ())) for a in ("arg_nprocs", "arg_nnodes", "arg_ppn")]
        ctx.ob("options", f"{name} distinct", not (opts[0] & opts[1] or opts[0] & opts[2] or opts[1] & opts[2]) and all(opts), wh, "one option is recognised as two different quantities")
        gpu_default(ctx, name, h, st, wh)
    # ---- GPU table
    m = 0
    for c in {x.qual: x for x in classes.values()}.values():
        m += gpu_table(ctx, c, *inits[c.qual][:2])
    ctx.floor("GPU assignment paths", m, 100)
    express(ctx, classes)
    retries(ctx)
    submit(ctx)
    # ---- names used elsewhere
    v = p.module(MRES)
    g = p.funcs.get(MRES + ":get_MPI_variant")
    if g is not None:
        rets = {x.value.value for x in ast.walk(g.node) if isinstance(x, ast.Return) and isinstance(x.value, ast.Constant) and isinstance(x.value.value, str)}
        ctx.floor("detected variants", len(rets), 3)
        for r in sorted(rets):
            ctx.ob("reachable", f"detected {r}", r in classes, ctx.where(g), f"the detected variant '{r}' is not a runner name")


def gpu_default(ctx, name, h, st, wh):
    t, a = h.get("default_gpu_arg_type"), dct(h.get("default_gpu_args"), st)
    if t is None or t == NONE:
        return
    ok = is_c(t) and t[2] in OPTION and a is not None and a.get(t[2]) not in (None, NONE)
    ctx.ob("gpu-table", f"{name} default", ok, wh, "the runner's default GPU setting has no option")


def description(ctx, f):
    """Run get_mpi_specs with its helpers opaque; returns the keys of the launch description."""
    p = ctx.p
    helpers = {n for n, g in p.cls(MR).methods.items() if n not in ("__init__", "get_mpi_specs")}
    keys = None
    n = 0
    MF, RES, XA = P("machinefile"), P("resources"), P("extra_args")
    PA = ("@parsed",)
    for mf in (True, False):
        for sup in (True, False):
            for res_ in (True, False):
                for xa in (True, False):
                    con = f"machine file {'given' if mf else 'not given'}, {'supported' if sup else 'not supported'}, resources {'managed' if res_ else 'off'}, extra args {'given' if xa else 'none'}"

                    def d(atom, st):
                        if atom[0] == "t" and atom[1] in (MF, RES, XA):
                            return {MF: mf, RES: res_, XA: xa}[atom[1]]
                        if atom[0] == "cmp" and atom[1] == "==" and NONE in atom[2:4]:
                            o = atom[3] if atom[2] == NONE else atom[2]
                            if o in (MF, RES, XA):
                                return not {MF: mf, RES: res_, XA: xa}[o]

                    def label(ev, st):
                        if ev.kind == "callret" and ev.name in ("express_spec", "_rm_replicated_args", "_assign_gpus", "_append_to_extra_args", "task_partition", "get_resources"):
                            fi = p.funcs.get(ev.callee or "")
                            return (ev.name,) + ((tuple(sorted(args_of(ev, fi).items())),) if fi is not None else ())

                    def result(ev, st):
                        if ev.name == "express_spec":
                            return ("tuple", (P("@hosts"), P("@mfile")))
                        if ev.name == "_parse_extra_args":
                            return ("tuple", (P("nprocs"), P("nnodes"), P("ppn"), P("@found")))
                        if ev.name in ("get_resources", "task_partition", "_rm_replicated_args"):
                            return ("tuple", tuple(P(f"@{ev.name}{k}") for k in range(3)))
                        if ev.name == "_adjust_procs":
                            return ("tuple", (P("nprocs"), P("ngpus")))
                        if ev.name == "_get_min_nodes":
                            return P("nnodes")
                        if ev.name == "_assign_gpus":
                            return ("tuple", (P("@g0"), P("@g1"), P("@g2"), XA if xa else NONE))
                        if ev.name == "_append_to_extra_args":
                            return P("@more")
                    heap = {atr("mfile_support"): C(sup)}
                    eng = ctx.engine(Sim(d, label=label, result=result, inline=lambda g: g.name not in helpers and not g.module.name == MRES, havoc=False))
                    r = eng.run(f, args={"machinefile": MF if mf else NONE, "resources": RES if res_ else NONE, "extra_args": XA if xa else NONE}, heap=heap)
                    ctx.ob("description", con + " made", bool(r["return"]), ctx.where(f), "no launch description is made")
                    for st, t in r["return"]:
                        n += 1
                        dd = dct(t, st)
                        if dd is None:
                            raise AnalysisBroken("get_mpi_specs does not return a dictionary of constant keys")
                        keys = set(dd) if keys is None else keys & set(dd)
                        rs = st.rs or ()
                        made = any(x[0] == "express_spec" for x in rs)
                        used = mf and sup
                        want_mf = MF if used else (P("@mfile") if res_ else NONE)
                        want_h = P("@hosts") if res_ and not used else NONE
                        ctx.ob("description", con + ": machine file", dd.get("machinefile") == want_mf, ctx.where(f), f"the machine file becomes {show(dd['machinefile']) if dd.get('machinefile') else '?'}")
                        ctx.ob("description", con + ": host list", dd.get("hostlist") == want_h, ctx.where(f), f"the host list becomes {show(dd['hostlist']) if dd.get('hostlist') else '?'}")
                        src = "_rm_replicated_args" if any(x[0] == "_rm_replicated_args" for x in rs) else ("get_resources" if res_ and not used else "task_partition")
                        gp = [x for x in rs if x[0] == "_assign_gpus"]
                        xa_now = xa
                        rm = [x for x in rs if x[0] == "_rm_replicated_args"]
                        ctx.ob("description", con + ": repeated options", bool(rm) == xa_now, ctx.where(f), "options found in the extra arguments are repeated" if xa_now else "launch options are dropped")
                        if rm and len(rm[0]) > 1:
                            a = dict(rm[0][1])
                            ctx.ob("description", con + ": found options", a.get("p_args") == P("@found"), ctx.where(f), "the options found in the extra arguments are not the ones removed")
                        for k, key in enumerate(("num_procs", "num_nodes", "procs_per_node")):
                            v = dd.get(key)
                            ctx.ob("description", con + f": {key}", v == P(f"@{src}{k}") or key == "procs_per_node" and v == NONE and st.facts.get(("t", atr("rm_rpn"))) is True, ctx.where(f), f"{key} becomes {show(v) if v else '?'}")
                        app = any(x[0] == "_append_to_extra_args" for x in rs)
                        none = st.facts.get(mk_cmp("==", atr("default_mpi_options"), NONE))
                        if none is not None:
                            ctx.ob("description", con + ": default options", app == (none is False) and dd.get("extra_args") == (P("@more") if app else (XA if xa else NONE)), ctx.where(f), "the runner's default options are not added to the extra arguments as they should")
    ctx.floor("launch descriptions", n, 16)
    # ---- removal of repeated options, each for itself
    g = p.meth(MR, "_rm_replicated_args")
    F = P(g.params[-1])
    for mask in range(8):
        flags = dict(zip(("num_procs", "num_nodes", "procs_per_node"), (bool(mask & 1), bool(mask & 2), bool(mask & 4))))

        def d(atom, st):
            if atom[0] == "cmp" and atom[1] == "==" and NONE in atom[2:4]:
                o = atom[3] if atom[2] == NONE else atom[2]
                if o == F:
                    return False
                if o[0] == "a" and o[1] == F and o[2] in flags:
                    return not flags[o[2]]
            if atom == ("t", F):
                return True
        r = ctx.engine(Sim(d)).run(g)
        for st, t in r["return"]:
            exp = tuple(NONE if fl else P(q) for q, fl in zip(g.params[1:4], flags.values()))
            ctx.ob("description", f"repeated {[k for k, v in flags.items() if v]}", t == ("tuple", exp), ctx.where(g), f"leaves {show(t)}")
    return keys or set()


def gpu_table(ctx, c, h, ist):
    p = ctx.p
    f = p.method(c, "_assign_gpus")
    n = 0
    XA, TASKP = P("extra_args"), P("task")
    NAME = "--the-gpus"
    dflt = h.get("default_gpu_arg_type")
    table = dct(h.get("default_gpu_args"), ist) or {}
    base = {k: v for k, v in ist.heap.items()}
    for setting in (None, "absent") + SETTINGS:
        for named in ((False, True) if setting not in (None, "absent", "runner_default") else (False,)):
            for ng in ("none", "zero", "some"):
                for xa in (True, False):
                    con = f"{c.name}: setting {setting}{' named' if named else ''}, {ng} GPUs requested" + (", extra args" if xa else "")
                    info = ({} if setting == "absent" else {"gpu_setting_type": C(setting)}) if setting else None
                    if named:
                        info["gpu_setting_name"] = C(NAME)
                    NG = {"none": NONE, "zero": C(0), "some": P("@ngpus")}[ng]

                    def d(atom, st):
                        if atom == ("t", PI):
                            return info is not None and bool(info or True)
                        if atom[0] == "cmp" and atom[1] == "in" and atom[3] == PI and is_c(atom[2]):
                            return info is not None and atom[2][2] in info
                        if atom[0] == "cmp" and atom[1] == "==" and PI in atom[2:4] and NONE in atom[2:4]:
                            return info is None
                        if atom[0] == "cmp" and atom[1] == "==" and P("@ngpus") in atom[2:4] and (NONE in atom[2:4] or C(0) in atom[2:4]):
                            return False
                        if atom == ("t", P("@ngpus")):
                            return True
                        if atom[0] == "t" and atom[1] == XA:
                            return xa
                        if atom[0] == "cmp" and atom[1] == "==" and XA in atom[2:4] and NONE in atom[2:4]:
                            return False
                        if atom[0] == "t" and atom[1][0] == "a" and atom[1][2] in ("even_slots", "matching_slots"):
                            return True
                        if atom == ("t", P("match_procs_to_gpus")):
                            return False
                        if atom[0] == "cmp" and atom[1] == "==" and NONE in atom[2:4] and (P("ppn") in atom[2:4] or P("nnodes") in atom[2:4]):
                            return False

                    def value(t):
                        if t[0] == "i" and t[1] == PI and is_c(t[2]) and info and t[2][2] in info:
                            return info[t[2][2]]

                    def result(ev, st):
                        if ev.base == PI and ev.name == "get" and ev.args and is_c(ev.args[0]):
                            k = ev.args[0][2]
                            return (info or {}).get(k, ev.args[1] if len(ev.args) > 1 else ev.kw.get("default", NONE))
                        if ev.name == "get_slots_as_string":
                            return P("@slots")
                        if ev.name == "doihave_gpus":
                            return TRUE

                    def label(ev, st):
                        if ev.kind == "callret" and ev.name in ("_add_to_env",):
                            a = args_of(ev, p.meth(TASK, "_add_to_env"))
                            return ("env", tuple(a.get(x) for x in p.meth(TASK, "_add_to_env").params[1:]))
                        if ev.kind == "callret" and ev.name == "get_slots_as_string":
                            return ("slots", ev.kw.get("limit", ev.args[1] if len(ev.args) > 1 else None), ev.kw.get("multiplier", ev.args[0] if ev.args else None))
                    heap = dict(base)
                    inl = lambda g: g.cls is not None and p.cls(MR) in p.mro(g.cls) or g.name == "jassert"
                    r = ctx.engine(Sim(d, label=label, result=result, value=value, inline=inl, havoc=False)).run(f, cls=c, heap=heap, args={"ngpus": NG, "extra_args": XA if xa else NONE})
                    # expected
                    kind, opt = None, None
                    if ng != "zero":
                        kind = setting if setting in SETTINGS and setting != "runner_default" else None
                        if kind is None:
                            kind, opt = (dflt[2], table.get(dflt[2])) if dflt is not None and is_c(dflt) and dflt != NONE else ("env", C("CUDA_VISIBLE_DEVICES"))
                        elif named:
                            opt = C(NAME)
                        else:
                            opt = C("CUDA_VISIBLE_DEVICES") if kind == "env" else table.get(kind)
                        if opt in (None, NONE):
                            ctx.ob("gpu-table", con, not r["return"], ctx.where(f), "GPUs are assigned although the runner has no setting for it")
                            continue
                    ctx.ob("gpu-table", con, bool(r["return"]), ctx.where(f), "the request always fails")
                    for st in r["raise"]:
                        ctx.ob("gpu-table", con + " fails", False, ctx.where(f), f"the request fails with {exc_of(st)}")
                    for st, t in r["return"]:
                        n += 1
                        rs = st.rs or ()
                        env = [x[1] for x in rs if x[0] == "env"]
                        parts = lit(t, st)
                        x = parts[-1] if parts else None
                        given = XA if xa else NONE
                        if ng == "zero":
                            ctx.ob("gpu-table", con, not env and x == given, ctx.where(f), "zero GPUs were requested but a setting is made")
                            continue
                        G = st.heap.get(A(TASKP, "ngpus_req"))
                        if kind == "env":
                            ctx.ob("gpu-table", con, x == given, ctx.where(f), "a command-line setting is made besides the environment one")
                            ctx.ob("gpu-table", con + " variable", len(env) == 1 and env[0][0] == opt and env[0][1] == P("@slots"), ctx.where(f), f"environment settings: {[tuple(map(show, y)) for y in env]}")
                            for y in rs:
                                if y[0] == "slots":
                                    ctx.ob("gpu-table", con + " slots", y[1] == G and y[2] is not None and y[2][0] == "a" and y[2][2] == "gpus_per_rset_per_node", ctx.where(f), f"the GPU list is limited to {show(y[1]) if y[1] else '?'} with {show(y[2]) if y[2] else '?'} per resource set")
                        else:
                            s = show(x) if x else ""
                            ctx.ob("gpu-table", con, not env, ctx.where(f), "an environment setting is made besides the command-line one")
                            ctx.ob("gpu-table", con + " option", x is not None and x != given and opt[2] in s, ctx.where(f), f"the arguments become {s[:80]}")
                            ctx.ob("gpu-table", con + " keeps", not xa or contains(x, XA), ctx.where(f), "the user's extra arguments are lost")
                            if G is not None and x is not None:
                                per = contains(x, ("b", "//", G, P("ppn"))) or any(y[0] == "b" and y[1] == "//" and y[2] == G for y in subterms(x))
                                ctx.ob("gpu-table", con + " number", contains(x, G) and per == (kind == "option_gpus_per_task"), ctx.where(f), f"the number given is not GPUs per {'process' if 'task' in kind else 'node'}")
    return n


def express(ctx, classes):
    """Where the assigned nodes go."""
    p = ctx.p
    for name, c in classes.items():
        if name not in PLACES:
            continue
        f = p.method(c, "express_spec")
        HL = P("@hostlist")

        def result(ev, st):
            if ev.name == "get_hostlist":
                return HL
            if ev.name == "create_machinefile":
                return ("tuple", (TRUE, P("@p"), P("@n"), P("@q")))

        def label(ev, st):
            if ev.kind == "callret" and ev.name in ("get_hostlist", "create_machinefile"):
                return (ev.name, tuple(sorted(args_of(ev, p.funcs[MRES + ":" + ev.name]).items())))
        r = ctx.engine(Sim(result=result, label=label, inline=lambda g: g.module.name != MRES)).run(f, cls=c)
        ctx.ob("description", f"{name} nodes", bool(r["return"]) and not r["raise"], ctx.where(f), "no host description is made")
        for st, t in r["return"]:
            parts = lit(t, st) or (None, None)
            calls = {x[0]: dict(x[1]) for x in st.rs or ()}
            if PLACES[name] == "hostlist":
                ok = parts == (HL, NONE) and calls.get("get_hostlist") == {"resources": P("resources"), "num_nodes": P("nnodes")}
                ctx.ob("description", f"{name} host list", ok, ctx.where(f), "the launcher is not given the hosts of this worker's resources")
            else:
                a = calls.get("create_machinefile", {})
                ok = parts[0] == NONE and parts[1] is not None and parts[1] == a.get("machinefile") and a.get("resources") == P("resources") and (a.get("num_procs"), a.get("num_nodes"), a.get("procs_per_node")) == (P("nprocs"), P("nnodes"), P("ppn"))
                ctx.ob("description", f"{name} machine file", ok, ctx.where(f), "the launcher is not given the machine file made for this worker's resources")
                m = parts[1]
                uniq = m is not None and contains(m, P("workerID")) and contains(m, A(P("task"), "id"))
                ctx.ob("description", f"{name} machine file name", uniq, ctx.where(f), "two tasks or workers can share a machine file")


def retries(ctx):
    p = ctx.p
    f = p.meth(ME, "_launch_with_retries")
    T = P("task")
    MAX = A(SELF, "max_launch_attempts")
    n = 0
    outcomes = {"ok": None, "raise": None, "fail": None}
    import itertools
    for mx in (1, 2, 3):
        for seq in itertools.product(("ok", "raise", "fail"), repeat=mx):
            if any(x == "ok" for x in seq[:-1]):
                continue
            con = f"at most {mx} attempts, launches: {' '.join(seq)}"

            def k(st):
                return sum(1 for x in st.rs or () if x[0] == "launch")

            class R(Sim):
                def value(self, t, st, eng):
                    if t == MAX:
                        return C(mx)
                    if t == A(T, "state"):
                        rs = st.rs or ()
                        if any(x[0] == "poll" for x in rs[-2:]) and 0 < k(st) <= mx:
                            return C("FAILED" if seq[k(st) - 1] == "fail" else "RUNNING")

            def raises(ev, st):
                if ev.callee == LA + ":launch":
                    i = k(st)
                    return ["OSError"] if i <= mx and seq[i - 1] == "raise" else False
                return False

            def result(ev, st):
                if ev.callee == LA + ":launch" and 0 < k(st) <= mx and seq[k(st) - 1] == "raise":
                    return []

            def label(ev, st):
                if ev.kind == "call" and ev.callee == LA + ":launch":
                    return ("launch",)
                if ev.kind == "callret" and ev.base == T and ev.name in ("poll", "reset"):
                    return (ev.name,)
                if ev.kind == "callret" and ev.name == "sleep":
                    return ("sleep",)
            r = ctx.engine(R(raises=raises, result=result, label=label, inline=lambda g: not (g.cls is not None and g.cls.qual == TASK) and g.module.name != LA and g.name != "_wait_on_start", limit=40, havoc=False)).run(f)
            ctx.ob("retries", con + " ends", bool(r["return"]) and not r["raise"], ctx.where(f), "a launch failure escapes" if r["raise"] else "launching never ends")
            for st, _ in r["return"]:
                n += 1
                rs = st.rs or ()
                ls = [i for i, x in enumerate(rs) if x[0] == "launch"]
                ctx.ob("retries", con, len(ls) == mx, ctx.where(f), f"launched {len(ls)} times")
                for a, b in zip(ls, ls[1:]):
                    ctx.ob("retries", con + " reset", ("reset",) in rs[a:b], ctx.where(f), "launched again without a reset")
                ctx.ob("retries", con + " no reset at the end", ("reset",) not in rs[ls[-1]:] if ls else False, ctx.where(f), "the task is reset after its last launch")
                if seq[-1] == "raise":
                    ctx.ob("retries", con + " state", st.heap.get(A(T, "state")) == C("FAILED_TO_START") and st.heap.get(A(T, "finished")) == TRUE, ctx.where(f), f"the task is left {show(st.heap.get(A(T, 'state'), NONE))}")
    ctx.floor("launch sequences", n, 14)
    i = p.meth(ME, "__init__")
    r = ctx.engine(Sim()).run(i)
    for st, _ in r["return"]:
        v = st.heap.get(MAX)
        ctx.ob("retries", "bound", v is not None and is_c(v) and isinstance(v[2], int) and v[2] >= 1, ctx.where(i), f"the number of attempts is {show(v) if v else 'not set'}")


def submit(ctx):
    p = ctx.p
    n = 0
    for cq in (ME, EXEC):
        f = p.method(p.cls(cq), "submit")
        LT = A(SELF, "list_of_tasks")
        for dry in (True, False):
            def label(ev, st):
                if ev.kind == "call" and ev.name in ("_launch_with_retries", "_implement_env") or ev.kind == "call" and ev.callee == LA + ":launch":
                    return ("launch" if "launch" in (ev.name or "") or ev.callee == LA + ":launch" else "env",)
                if ev.kind == "callret" and ev.name in ("_set_complete", "_check_app_exists"):
                    return (ev.name,)
                if ev.kind == "mutate" and ev.name in ("append", "insert") and ev.base == LT:
                    return ("recorded", ev.args[-1] if ev.args else None)

            def d(atom, st):
                if atom[0] == "cmp" and atom[1] == "==" and NONE in atom[2:4] and P("app_name") in atom[2:4]:
                    return False
                if atom == ("t", P("app_name")):
                    return True
            opaque = {"_launch_with_retries", "get_app", "default_app", "_check_app_exists", "_create_mpi_runner_from_config", "_create_mpi_runner_from_attr", "get_mpi_specs", "form_command", "_set_sim_dir_env", "_process_env_script", "_implement_env", "_set_complete", "_wait_on_start", "__init__"}
            r = ctx.engine(Sim(d, label=label, inline=lambda g: g.name not in opaque and g.module.name != LA and not (g.cls is not None and g.cls.qual == TASK), raises=lambda ev, st: False, limit=12, havoc=False)).run(f, args={"dry_run": C(dry)})
            con = f"{cq.split(':')[1]} {'dry run' if dry else 'real'}"
            ctx.ob("submit", con + " ends", bool(r["return"]), ctx.where(f), "no submission returns")
            for st, t in r["return"]:
                n += 1
                rs = [x for x in st.rs or ()]
                ls = [i for i, x in enumerate(rs) if x[0] == "launch"]
                rec = [x for x in rs if x[0] == "recorded"]
                ctx.ob("submit", con, len(ls) == (0 if dry else 1), ctx.where(f), f"launched {len(ls)} times")
                ctx.ob("submit", con + " recorded", len(rec) == 1 and rec[0][1] == t or dry and not rec, ctx.where(f), "the returned task is not recorded once")
                if dry:     # the base executor leaves completion to the first poll (E01)
                    ctx.ob("submit", con + " complete", ("_set_complete",) in rs or cq == EXEC, ctx.where(f), "a dry run is not marked complete")
                elif ls:
                    ctx.ob("submit", con + " environment", ("env",) in rs[:ls[0]], ctx.where(f), "the task's environment is not set before the launch")
                    ctx.ob("submit", con + " checked", ("_check_app_exists",) in rs[:ls[0]], ctx.where(f), "a missing application is not noticed before the launch")
                    ctx.ob("submit", con + " not completed", ("_set_complete",) not in rs, ctx.where(f), "a launched task is marked complete by the submission")
    ctx.floor("submissions", n, 8)


# ---------------------------------------------------------------------------------------------- E05
def class_fields(p, c):
    """{field: constant default or None} of a model class including its bases."""
    out = {}
    for k in reversed(p.mro(c)):
        for s in k.node.body:
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                out[s.target.id] = s.value.value if isinstance(s.value, ast.Constant) else s.value
    return out


@check("E05", "enumeration of the shipped platform descriptions against the launcher and setting tables, of every name a detection can give, of every key read from a platform description, and the merge evaluated over (known, given) fields")
def e05(ctx):
    p = ctx.p
    ctx.rule("shipped", "a shipped platform names a supported launcher and a documented GPU setting, and gives the setting's name where one is needed")
    ctx.rule("known", "every platform name that detection can give is a known platform")
    ctx.rule("fields", "every key the package reads from a platform description is a field of a platform")
    ctx.rule("merge", "fields given by the user override those of the named platform, and fields left unset do not; an unknown name is an error")
    ctx.rule("accepted", "the values the validators accept are exactly the launchers and settings the code handles")
    base = p.cls(PF + ":Platform")
    fields = class_fields(p, base)
    ctx.floor("platform fields", len(fields), 8)
    n = 0
    for c in p.classes.values():
        if base not in p.mro(c) or c is base:
            continue
        n += 1
        f = class_fields(p, c)
        wh = f"{c.module.path}:{c.node.lineno}"
        ctx.ob("shipped", f"{c.name} launcher", f.get("mpi_runner") is None or f["mpi_runner"] in NAMES, wh, f"launcher {f.get('mpi_runner')} is not supported")
        t = f.get("gpu_setting_type")
        ctx.ob("shipped", f"{c.name} setting", t is None or t in SETTINGS, wh, f"GPU setting {t} is not a documented one")
        ctx.ob("shipped", f"{c.name} setting name", t in (None, "runner_default") or isinstance(f.get("gpu_setting_name"), str), wh, "the GPU setting has no name")
        ctx.ob("shipped", f"{c.name} fields", set(f) <= set(fields), wh, f"unknown fields {sorted(set(f) - set(fields))}")
        a, b = f.get("cores_per_node"), f.get("logical_cores_per_node")
        ctx.ob("shipped", f"{c.name} cores", not (isinstance(a, int) and isinstance(b, int)) or a > 0 and b % a == 0, wh, "logical cores are not a multiple of the cores")
    ctx.floor("shipped platforms", n, 6)
    kc = p.cls(PF + ":Known_platforms")
    known = class_fields(p, kc)
    for k, v in known.items():
        # the class made is a platform
        made = p.classes.get(f"{PF}:{v.func.id}") if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) else None
        ctx.ob("known", f"{k} is a platform", made is not None and base in p.mro(made), f"{kc.module.path}:{kc.node.lineno}", f"{k} is not made from a platform class")
    det = p.module(PF).assigns.get("detect_systems")
    names = {v.value for v in det.values if isinstance(v, ast.Constant)} if isinstance(det, ast.Dict) else set()
    ctx.floor("detected systems", len(names), 3)
    g = p.funcs[PF + ":known_envs"]
    r = ctx.engine(Sim()).run(g)
    got = set()
    for st, t in r["return"]:
        if t != NONE:
            got.add(t[2] if is_strc(t) else show(t))
    ctx.floor("platforms by environment", len(got), 3)
    for x in sorted(names | got):
        ctx.ob("known", x, x in known, ctx.where(g), f"'{x}' is detected but is not a known platform")
    # ---- keys read
    m = 0
    for mod in p.modules.values():
        if not mod.name.startswith(LIB.rstrip(".")) or ".tests" in mod.name:
            continue
        for x in ast.walk(mod.tree):
            key = None
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("get", "pop", "setdefault") and _is_info(x.func.value) and x.args and isinstance(x.args[0], ast.Constant):
                key = x.args[0].value
            elif isinstance(x, ast.Subscript) and _is_info(x.value) and isinstance(x.slice, ast.Constant):
                key = x.slice.value
            elif isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.ops[0], (ast.In, ast.NotIn)) and _is_info(x.comparators[0]) and isinstance(x.left, ast.Constant):
                key = x.left.value
            if isinstance(key, str):
                m += 1
                ctx.ob("fields", f"{mod.name}: {key}", key in fields, f"{mod.path}:{x.lineno}", f"'{key}' is not a field of a platform")
    ctx.floor("platform keys read", m, 10)
    merge(ctx, known)
    accepted(ctx)


def _is_info(x):
    return isinstance(x, ast.Name) and x.id == "platform_info" or isinstance(x, ast.Attribute) and x.attr == "platform_info"


def merge(ctx, known):
    """One field of the user's description, with every kind of value, through get_platform."""
    p = ctx.p
    f = p.funcs[PF + ":get_platform"]
    LS, KP, PS = P(f.params[0]), P("@known"), P("@given")
    PSI = I(LS, C("platform_specs"))
    NAME = "known_name"
    KN = I(KP, C(NAME))
    n = 0

    def elem(t):
        return t[0] == "elem" or t[0] == "idx"

    def isval(t):
        return t[0] == "i" and t[1] in (PS, PSI) and elem(t[2])

    for named in (True, False):
        for case in ("nothing given", "set", "zero", "unset"):
            given = case != "nothing given"
            con = f"{'known' if named else 'no'} name, field {case}"

            def d(atom, st):
                t = atom[1] if atom[0] == "t" else None
                if t is not None and t in (PS, PSI):
                    return given
                if t is not None and isval(t):
                    return case == "set"
                if t == C(NAME):
                    return True
                if atom[0] == "cmp" and atom[1] == "in":
                    if atom[3] == LS or atom[3] == KP:
                        return True
                    if atom[2] == C("LIBE_PLATFORM"):
                        return False
                if atom[0] == "cmp" and atom[1] == "==" and NONE in atom[2:4] and any(isval(x) for x in atom[2:4]):
                    return case == "unset"

            def result(ev, st):
                if ev.name == "get" and ev.base == LS and ev.args and ev.args[0] == C("platform_specs"):
                    return PS
                if ev.name == "known_system_detect" or ev.callee in ("os.getenv", "os.environ.get"):
                    return NONE
                if ev.name in ("specs_dump", "model_dump"):
                    return KP

            class M(Sim):
                def value(self, t, st, eng):
                    if t == PSI:
                        return PS
                    if t == I(LS, C("platform")):
                        return C(NAME) if named else C("")
                    if t[0] == "i" and t[2] == C("LIBE_PLATFORM"):
                        return NONE

                def on_event(self, ev, st, eng):
                    x = None
                    if ev.kind == "store" and ev.loc is not None and ev.loc[0] == "i":
                        # locations are kept in a normal form: known[name][key] may be written known[key][name]
                        for k in subterms(ev.loc):
                            if elem(k):
                                for b in (KN, ev.loc[1]):
                                    if ev.loc == mk_index(b, k):
                                        x = ("in", b, isval(ev.value) and ev.value[2] == k)
                                        break
                    elif ev.kind == "mutate" and ev.name == "update" and ev.args:
                        x = ("update", ev.base, ev.args[0])
                    elif ev.kind == "iter":
                        x = ("iter",)
                    if x is not None:
                        st.rs = (st.rs or frozenset()) | {x}
            r = ctx.engine(M(d, result=result, inline=lambda g: g.name not in ("known_system_detect", "specs_dump", "known_envs"), havoc=False)).run(f)

            def enters(src, st):
                """Does the field get into a dictionary made from src?"""
                if src in (PS, PSI):
                    return True
                if src[0] == "comp" and src[1] == "dict":
                    if len(src[2]) < 2:
                        return False     # the filter is never satisfied
                    k, v = src[2][0], src[2][1]
                    if not (elem(k) and isval(v) and v[2] == k):
                        return None
                    vs = [truth(c, lambda a: d(a, None)) for c in (src[4] if len(src) > 4 else ())]
                    return None if any(x is None for x in vs) else all(vs)
                if src[0] == "new" and src[2] == "dict" and ("copyof", src) in st.heap:
                    return enters(st.heap[("copyof", src)], st)
                return None
            ctx.ob("merge", con + " works", bool(r["return"]), ctx.where(f), "no description is returned")
            for st, t in r["return"]:
                n += 1
                rs = st.rs or frozenset()
                into = t
                src = t[0] == "new" and st.heap.get(("copyof", t)) or t
                got, wrong = False, False
                unknown = False
                for x in rs:
                    if x[0] == "in" and x[1] in (t, src):
                        got, wrong = True, wrong or not x[2]
                    if x[0] == "update" and x[1] in (t, src):
                        e = enters(x[2], st)
                        unknown |= e is None
                        got |= bool(e)
                if named:
                    if src != KN:
                        ctx.ob("merge", con + " base", not (src in (PS, PSI) or src[0] == "comp" or dct(t, st) == {}), ctx.where(f), "the named platform's description is not the one returned")
                        ctx.assumption(f"merge of {con} not followed: {show(t)[:60]}")
                        continue
                elif given and not got:
                    e = enters(t, st)
                    unknown |= e is None and ("iter",) not in rs and not (t[0] == "new")
                    got |= bool(e)
                if unknown:
                    ctx.assumption(f"merge of {con} not followed: {show(t)[:60]}")
                    continue
                if not given:
                    ctx.ob("merge", con, not got, ctx.where(f), "fields come from nowhere")
                    if not named:
                        ctx.ob("merge", con + " empty", dct(t, st) == {}, ctx.where(f), "something is returned without a name or fields")
                    continue
                if named and ("iter",) not in rs and not got and not any(x[0] == "update" for x in rs) and st.facts.get(("loop",)) is None:
                    # the empty iteration: nothing to merge; the path with the field is another one
                    if any(("iter",) in (y.rs or ()) for y, _ in r["return"]):
                        continue
                ctx.ob("merge", con, got == (case != "unset") and not wrong, ctx.where(f), "a field left unset erases the platform's" if case == "unset" else "a field given by the user is not the one in effect")
    ctx.floor("merge paths", n, 8)
    # unknown name: the lookup of the name is inside a handler for KeyError that raises
    lookups = 0
    for x in ast.walk(f.node):
        if isinstance(x, ast.Try):
            for h in x.handlers:
                ts = [h.type] if not isinstance(h.type, ast.Tuple) else h.type.elts
                if h.type is None or any(isinstance(y, ast.Name) and y.id in ("KeyError", "LookupError", "Exception") for y in ts):
                    lookups += 1
                    ctx.ob("merge", "unknown name", any(isinstance(y, ast.Raise) for y in ast.walk(h)), ctx.where(f), "an unknown platform name is ignored")


def accepted(ctx):
    p = ctx.p
    V = LIB + "utils.validators"
    for fn, table, what in (("check_gpu_setting_type", SETTINGS, "GPU setting"), ("check_mpi_runner_type", NAMES, "launcher")):
        f = p.funcs.get(f"{V}:{fn}")
        if f is None:
            raise AnalysisBroken(f"validator {fn} is gone")
        val = f.params[-1]
        for x in table + ("no_such_thing",):
            r = ctx.engine(Sim()).run(f, args={val: C(x)})
            ok = bool(r["return"])
            ctx.ob("accepted", f"{what} {x}", ok == (x in table) and all(t == C(x) for _, t in r["return"]), ctx.where(f), f"'{x}' is {'accepted' if ok else 'rejected'}")
