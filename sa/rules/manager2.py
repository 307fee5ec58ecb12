"""M03, M06-M11, H01: message intake, cancellation, criteria, checkpoints, protected fields, abort."""
import itertools

from . import check
from .common import *
from .manager import ACTIVE_ANY, HH, HIST, IDS, MQ, PEND, W, WCOMMS, WEXC, _is_comp_node, any_of, comm_of, names_flag  # noqa

LS = A(SELF, "libE_specs")
EC = A(SELF, "exit_criteria")
HQ = LIB + "history:History"


def opt(atom, key, d=LS):
    """Atom tests option d[key]: presence or truth."""
    return atom == ("cmp", "in", C(key), d) or atom == ("t", I(d, key))


# ---------------------------------------------------------------------------------------------- M06
@check("M06", "exhaustive truth tables over worker state x message kind x options, by path-sensitive abstract interpretation")
def m06(ctx):
    ctx.rule("state-table", "_update_state_on_worker_msg leaves active / persis_state / active_recv / pending exactly as specified, for every "
             "combination of pending, active-receive, keep-state, failure seen, message status, type and persistent mark")
    ctx.rule("release-table", "the worker's resources are freed once exactly for a non-persistent result or a persistent finish")
    ctx.rule("data-table", "data goes to update_history_f or update_history_x_in by message type; final persistent data only with the matching option")
    ctx.rule("persis-info", "returned persis_info is merged into the entry of that worker")
    p = ctx.p
    fu = p.meth(MQ, "_update_state_on_worker_msg")
    pi, D, w = (P(x) for x in fu.params[1:4])
    li = I(D, "libE_info")
    SIM, GEN = K(p, "EVAL_SIM_TAG"), K(p, "EVAL_GEN_TAG")
    FS, FG, DONE = K(p, "FINISHED_PERSISTENT_SIM_TAG"), K(p, "FINISHED_PERSISTENT_GEN_TAG"), K(p, "WORKER_DONE")
    opaque = {"update_history_f", "update_history_x_in", "_kill_workers", "free_rsets", "live_update", "_ensure_sim_id_in_persis_in"}
    xin, uf = p.meth(HQ, "update_history_x_in"), p.meth(HQ, "update_history_f")
    RES = A(SELF, "resources")
    n = 0
    for keep, pend, ar, wexc, pers, status, typ in itertools.product((0, 1), (0, 1), (0, 1), (0, 1), (0, 1), (FS, FG, DONE), (SIM, GEN)):
        fin = status != DONE
        if fin and (status == FS) != (typ == SIM):
            continue
        for nd, o1 in itertools.product((0, 1), (0, 1)) if fin else [(1, 0)]:
            def decide(atom):
                x = atom[1] if atom[0] == "t" else atom
                if atom[0] == "cmp" and atom[1] == "in" and atom[3] == PEND and atom[2] == w:
                    return bool(pend)
                if atom == ("t", I(W, w, "active_recv")):
                    return bool(ar)
                if opt(atom, "keep_state", li):
                    return bool(keep)
                if atom == ("t", WEXC):
                    return bool(wexc)
                if callname(x) == "isinstance":
                    return bool(nd)
                if atom[0] == "cmp" and atom[1] == "==" and atom[2] == I(D, "calc_out") and atom[3] == NONE:
                    return not nd
                if opt(atom, "persistent", li):
                    return bool(pers)
                if atom == ("cmp", "in", C("libE_info"), D) or opt(atom, "calc_out", D) and atom[0] == "cmp" or opt(atom, "persis_info", D):
                    return True
                if opt(atom, "use_persis_return_gen"):
                    return bool(o1) if typ == GEN else True
                if opt(atom, "use_persis_return_sim"):
                    return bool(o1) if typ == SIM else True
                if atom == ("t", RES):
                    return True
                if atom == mk_cmp("==", RES, NONE):
                    return False

            def label(ev, st, eng):
                if ev.kind in ("call", "callin") and ev.name in ("update_history_f", "update_history_x_in"):
                    f = uf if ev.name == "update_history_f" else xin
                    a = args_of(ev, f)
                    return ("data", ev.name, tuple(a.get(k) for k in f.params[1:]))
                if ev.kind == "call" and ev.name == "free_rsets":
                    return ("free", tuple(ev.args) + tuple(ev.kw.values()))
                if ev.kind == "mutate" and ev.base == PEND:
                    return ("pend", ev.name, ev.args[0] if ev.args else None)
                if ev.kind == "store" and ev.loc == PEND:
                    return ("pendset",)
                if ev.kind == "store" and ev.loc[0] == "i" and contains(ev.loc, W) and ev.loc[1] != I(W, w):
                    return ("other", show(ev.loc))
                if ev.kind == "mutate" and contains(ev.base, pi) and ev.name == "update" and ev.args and contains(ev.args[0], I(D, "persis_info")):
                    return ("pinfo", ev.base)
                if ev.kind == "store" and contains(ev.loc, pi) and ev.value is not None and mentions(ev.value, lambda t: t == I(D, "persis_info")):
                    return ("pinfo", ev.loc)
            rule = Table(decide, values={I(D, "calc_status"): status, I(D, "calc_type"): typ}, label=label, inline=lambda f, e: f.name not in opaque)
            res = ctx.engine(rule).run(fu)
            con = f"keep={keep} pending={pend} active_recv={ar} failure={wexc} persistent={pers} " + \
                  f"{'finish' if fin else 'result'} {'sim' if typ == SIM else 'gen'}" + (f" data={nd} option={o1}" if fin else "")
            idle1 = (not pend and not ar and not keep) or wexc
            if not res["return"]:
                ctx.ob("state-table", con, False, ctx.where(fu), "a valid message is refused")
            for st, _ in res["return"]:
                n += 1
                rs = st.rs or ()
                g = lambda f: st.heap.get(I(W, w, f))
                sv = lambda v: "unchanged" if v is None else show(v)
                act, ps, av = g("active"), g("persis_state"), g("active_recv")
                if fin:
                    oka = (act is not None and is_zeroc(act)) if (idle1 or ar or pend) else (act is None or is_zeroc(act))
                    okp = ps is not None and is_zeroc(ps)
                    okr = (av is not None and is_zeroc(av)) if ar else (av is None or is_zeroc(av))
                    removed = ("pendset",) in rs or any(x[0] == "pend" and x[1] in ("remove", "discard", "pop", "clear") for x in rs)
                    okq = removed if pend else True
                else:
                    oka = (act is not None and is_zeroc(act)) if idle1 else act is None
                    okp = (ps in (typ, I(D, "calc_type"))) if pers else ps is None
                    okr = av is None
                    okq = not any(x[0] in ("pend", "pendset") for x in rs)
                ctx.ob("state-table", f"active {con}", oka, ctx.where(fu), f"active becomes {sv(act)}")
                ctx.ob("state-table", f"persis_state {con}", okp, ctx.where(fu), f"persis_state becomes {sv(ps)}")
                ctx.ob("state-table", f"active_recv {con}", okr, ctx.where(fu), f"active_recv becomes {sv(av)}")
                ctx.ob("state-table", f"pending {con}", okq, ctx.where(fu), "the pending mark is not kept / cleared as it should")
                ot = [x for x in rs if x[0] == "other"]
                ctx.ob("state-table", f"only this worker {con}", not ot, ctx.where(fu), f"{ot[0][1] if ot else ''} is changed")
                fr = [x for x in rs if x[0] == "free"]
                want = 1 if fin or not pers else 0
                ctx.ob("release-table", con, len(fr) == want and all(x[1] == (w,) for x in fr), ctx.where(fu), f"resources are freed {len(fr)} times, expected {want}")
                d = [x[1:] for x in rs if x[0] == "data"]
                if fin:
                    exp = bool(nd and o1)
                else:
                    exp = True
                if not exp:
                    okd = not d
                elif typ == SIM:
                    okd = len(d) == 1 and d[0][0] == "update_history_f" and d[0][1][0] == D and d[0][1][1] == A(SELF, "kill_canceled_sims")
                else:
                    okd = len(d) == 1 and d[0][0] == "update_history_x_in" and d[0][1] == (w, I(D, "calc_out"), I(W, w, "gen_started_time"))
                ctx.ob("data-table", con, okd, ctx.where(fu), f"history updates: {[(x[0], [show(y) if y else None for y in x[1]]) for x in d] or 'none'}")
                pp = [x[1] for x in rs if x[0] == "pinfo"]
                wid = {w, ("call", ("g", "int"), (w,), ())}
                ok = bool(pp) and all(any(t in wid for t in subterms(nosite(b))) for b in pp)
                ctx.ob("persis-info", con, ok, ctx.where(fu), f"persis_info goes to {[show(x) for x in pp] or 'nowhere'}")
    ctx.floor("message table rows", n, 60)


# ---------------------------------------------------------------------------------------------- M07
KILLSET = {("sim_started", True), ("cancel_requested", True), ("sim_ended", False), ("kill_sent", False)}


def _hist_atoms(atoms, st, rowterms):
    """Set of (field, polarity) that history-field atoms say about the rows; None for atoms not understood."""
    out, odd = set(), []
    for a, pol in atoms:
        if a[0] == "i" and is_strc(a[2]) and contains(a, HH):
            out.add((a[2][2], pol))
        else:
            odd.append(a)
    return out, odd


def _bounds_ok(sel):
    """Row range of a scan: returns problem text or None."""
    LE, LSt = A(HIST, "last_ended"), A(HIST, "last_started")
    if callname(sel) in ("numpy.arange", "range"):
        a = sel[2]
        lo, hi = (C(0), a[0]) if len(a) == 1 else (a[0], a[1])
        if len(a) > 2 and a[2] != C(1):
            return None
    elif sel[0] == "s":
        lo, hi = sel[1], sel[2]
        lo = C(0) if lo == NONE else lo
    else:
        return None
    r, c = lin_diff(lo, LE)
    if not r and c > 1:
        return f"the scan starts at last_ended + {c}"
    r, c = lin(strip_deep(lo))
    if dict(r).get(LSt):
        return "the scan starts after the last started point"
    if hi != NONE:
        r, c = lin_diff(hi, LSt)
        if not r and c < 1:
            return f"the scan ends before last_started + 1 (last_started + {c})"
        r2, _ = lin(strip_deep(hi))
        if dict(r2).get(LE):
            return "the scan ends at the last ended point"
    return None


@check("M07", "path-sensitive abstract interpretation: row-mask and guard facts at each kill signal, monotone scan-bound rules")
def m07(ctx):
    ctx.rule("kill-exact", "each STOP_TAG/MAN_SIGNAL_KILL goes to the sim_worker of rows that are started, cancel-requested, not ended and not signalled, and to no fewer")
    ctx.rule("kill-marked", "on every path that sends kill signals the same rows are marked kill_sent")
    ctx.rule("kill-off", "with the option off nothing is sent")
    ctx.rule("scan-range", "the scan covers last_ended+1 .. last_started; last_started never decreases and covers every row given; last_ended passes only ended rows")
    ctx.rule("option-passed", "giving and returning rows pass the cancelling option on to the history")
    p = ctx.p
    fk = p.meth(MQ, "_kill_cancelled_sims")
    TAG, KILL = K(p, "STOP_TAG"), K(p, "MAN_SIGNAL_KILL")
    OPT = A(SELF, "kill_canceled_sims")
    sends = []
    for on in (True, False):
        rows_seen = []

        def decide(atom):
            if atom == ("t", OPT):
                return on
            if atom == mk_cmp("==", OPT, NONE):
                return not on

        def rows_of(t):
            """Row selector R from a term H[R]['sim_worker'] inside t."""
            for x in subterms(t):
                if x[0] == "i" and x[2] == C("sim_worker"):
                    y = x[1]
                    if y[0] == "i" and y[1] == HH:
                        return y[2]
                    if y[0] == "elem":
                        z = strip_deep(y[1])
                        if z[0] == "i" and z[1] == HH:
                            return z[2]
                        if z == HH:
                            return y
                    if y[0] == "i" and contains(y, HH):
                        return y[2]
            return None

        def label(ev, st, eng):
            if ev.kind == "call" and ev.name == "send" and comm_of(ev.base) is not None:
                wid = comm_of(ev.base)
                sends.append((on, ev, st.copy(), wid, rows_of(wid)))
                return ("send", rows_of(wid))
            if ev.kind == "store" and ev.loc[0] == "i" and ev.loc[2] == C("kill_sent") and contains(ev.loc, HH):
                y = ev.loc[1]
                return ("mark", y[2] if y[0] == "i" and y[1] == HH else y, is_truec(ev.value), ev.where())
        rule = Table(decide, label=label, inline=lambda f, e: f.cls is not None and f.cls.qual == MQ)
        res = ctx.engine(rule).run(fk)
        for st, _ in res["return"]:
            rs = st.rs or ()
            sn = [x for x in rs if x[0] == "send"]
            mk = [x for x in rs if x[0] == "mark"]
            if not on:
                ctx.ob("kill-off", "_kill_cancelled_sims", not sn and not mk, ctx.where(fk), "signals are sent although the option is off")
                continue
            if not sn:
                # marking without sending: only acceptable when the loop over the workers had no element
                continue
            R = sn[0][1]
            ok = bool(mk) and all(x[2] for x in mk)
            ctx.ob("kill-marked", "_kill_cancelled_sims", ok, ctx.where(fk), "a kill signal is sent and its point is not marked as signalled")
            for x in mk:
                if R is None:
                    continue
                m = strip_deep(x[1])
                base = _rows_base(R)
                same = _rows_base(m) == base or _rows_base(_unid(m)) == base
                ctx.ob("kill-marked", "_kill_cancelled_sims rows", same, x[3], f"signalled rows are {show(base)[:80]} but {show(m)[:80]} are marked")
    ctx.floor("kill signal sites", len([s for s in sends if s[0]]), 1)
    for on, ev, st, wid, R in sends:
        if not on:
            continue
        ctx.ob("kill-exact", f"{ev.func.name} message", ev.args[:2] == (TAG, KILL) or list(ev.args[:2]) == [TAG, KILL], ev.where(),
               f"the signal sent is {[show(a) for a in ev.args]}")
        if R is None:
            bad = not mentions(wid, lambda t: t == C("sim_worker"))
            ctx.ob("kill-exact", f"{ev.func.name} addressee", not bad, ev.where(), f"the signal goes to {show(wid)[:100]}, not to the worker running the point")
            continue
        R = strip_deep(R)
        base = _rows_base(R)
        got, odd, rng = set(), [], None
        b = base
        masks = []
        if b[0] == "i":
            masks.append(b[2])
            rng = b[1]
        elif callname(b) in ("numpy.flatnonzero",):
            masks.append(b[2][0])
        elif callname(b) in ("range", "numpy.arange"):
            rng = b
        elif b[0] == "b" and b[1] == "+":
            for x in b[2:4]:
                if callname(x) == "numpy.flatnonzero":
                    masks.append(x[2][0])
        for m in masks:
            while callname(m) == "numpy.flatnonzero":
                m = m[2][0]
            at = mask_atoms(m)
            if at is None:
                odd.append(m)
                continue
            g, o = _hist_atoms(at, st, None)
            got |= g
            odd += o
            for a, _ in at:
                if a[0] == "i" and a[1][0] == "i" and a[1][1] == HH:
                    rng = rng or a[1][2]
        for a, v in st.facts.items():
            x = a[1] if a[0] == "t" else None
            if x is not None and x[0] == "i" and is_strc(x[2]) and x[1][0] == "i" and x[1][1] == HH and (x[1][2] == R or strip_deep(x[1][2]) == R):
                got.add((x[2][2], v))
        miss = KILLSET - got
        extra = {g for g in got - KILLSET if g[0] not in ()}
        und = bool(odd)
        ctx.ob("kill-exact", f"{ev.func.name} conditions", not miss or und, ev.where(), f"signals are sent without requiring {sorted(f'{a}={b}' for a, b in miss)}")
        ctx.ob("kill-exact", f"{ev.func.name} extra conditions", not extra, ev.where(), f"points are also required to have {sorted(f'{a}={b}' for a, b in extra)}")
        if rng is not None:
            pr = _bounds_ok(strip_deep(rng))
            ctx.ob("scan-range", f"{ev.func.name} range", pr is None, ev.where(), pr or "")
    # no other kill signals
    import ast as _a
    allowed = {fk.name} | {f.name for f in callees(p, fk)}
    for f in p.funcs.values():
        if f.module.name != LIB + "manager":
            continue
        for c in all_calls(f):
            if method_name(c) == "send" and len(c.args) == 2 and [getattr(x, "id", None) for x in c.args] == ["STOP_TAG", "MAN_SIGNAL_KILL"]:
                ctx.ob("kill-exact", f"kill site in {f.name}", f.name in allowed, ctx.where(f, c), "a kill signal is sent outside the scan for cancelled points")
    # scan is made every iteration
    run = p.meth(MQ, "run")
    bad = []

    def event(ev, st, eng):
        if ev.kind in ("call", "callin"):
            if ev.name == "_kill_cancelled_sims":
                st.rs = "scan"
            elif ev.name == "_alloc_work":
                if st.rs != "scan":
                    bad.append(ev.where())
                st.rs = None
    inl = reach_inline(p, "_kill_cancelled_sims", "_alloc_work")
    ctx.engine(Fn(event=event, inline=inl, relevant=lambda a: False, call_value=lambda ev, st, e: P("@" + ev.name) if ev.name in ("_alloc_work", "_receive_from_workers") else None)).run(run)
    ctx.ob("scan-range", "run scans each iteration", not bad, bad[0] if bad else "", "work is allocated again without having looked for cancelled points")

    # ---- history side
    xo, uf = p.meth(HQ, "update_history_x_out"), p.meth(HQ, "update_history_f")
    LSt, LE, HS = A(SELF, "last_started"), A(SELF, "last_ended"), A(SELF, "H")
    q = P(xo.params[1])
    kp = P(xo.params[3])
    rel = lambda a: mentions(a, lambda t: t in (LSt, LE)) or contains(a, kp)
    def evs(ev, st, eng):
        if ev.kind == "store" and ev.loc == LSt and any(_says_ge(a, val, ev.value, LSt) for a, val in st.facts.items()):
            st.rs = "ge"
    rule = Fn(oracle=lambda a, st, e: True if a == ("t", kp) else None, relevant=rel, event=evs)
    res = ctx.engine(rule).run(xo)
    for st, _ in res["return"]:
        v = st.heap.get(LSt)
        ok = False
        if v is not None:
            parts = list(v[2]) if callname(v) in ("max", "numpy.maximum") else None
            if parts is not None and len(parts) == 1 and parts[0][0] in ("tuple", "list"):
                parts = list(parts[0][1])
            if parts is not None:
                ok = any(x == LSt for x in parts) and any(_max_of(x, q) for x in parts)
            else:
                # plain assignment: allowed when the path established new >= old
                ok = _max_of(v, q) and st.rs == "ge"
        else:
            ok = any(_says_ge(a, val, LSt, None) or mentions(a, lambda t: _max_of(t, q)) for a, val in st.facts.items())
        ctx.ob("scan-range", "last_started", ok, ctx.where(xo), f"last_started becomes {show(v)[:120] if v else 'unchanged'}: it can miss or drop a started point")
    ini = p.meth(HQ, "__init__")
    for st, _ in ctx.engine(Fn(relevant=lambda a: False)).run(ini)["return"]:
        v = st.heap.get(LE)
        if v is None or mentions(v, lambda t: t == C("sim_ended")):
            ctx.ob("scan-range", "last_ended at the start", v is not None, ctx.where(ini), "last_ended has no initial value")
            continue
        r, c = lin(v)
        ctx.ob("scan-range", "last_ended at the start", not dict(r) and c == -1, ctx.where(ini), f"last_ended starts as {show(v)[:60]}: rows before it are never searched")
    bad, n = [], [0]
    kp2 = P(uf.params[2])

    entry = []

    def ev2(ev, st, eng):
        if ev.kind == "loop" and ev.extra is not None and callname(ev.extra) in ("range", "numpy.arange"):
            lo = ev.extra[2][0] if len(ev.extra[2]) > 1 else C(0)
            r, c = lin_diff(lo, LE)
            if not dict(r):
                entry.append(c if len(ev.extra[2]) < 3 or ev.extra[2][2] == C(1) else 2)
        if ev.kind == "store" and ev.loc == LE:
            n[0] += 1
            v = ev.value
            got = [a[1][1][2] for a, val in st.facts.items() if val and a[0] == "t" and a[1][0] == "i" and a[1][2] == C("sim_ended") and a[1][1][0] == "i" and a[1][1][1] == HS]
            old = ev.old if ev.old is not None and ev.old[0] != "phi" else LE
            same = any(lin_diff(j, v) in (((), 0), ({}, 0)) for j in got)
            r, c = lin_diff(v, old)
            step = not dict(r) and c == 1          # the cursor moves by one
            # an iteration of a range that starts right after the cursor keeps in step with it
            starts = [x for x in entry if x is not None]
            ok = same and (step or all(x <= 1 for x in starts)) or bool(got) and step and bool(starts) and all(x == 1 for x in starts)
            inloop = any(isinstance(x, (ast.For, ast.While)) and any(y is ev.node for y in ast.walk(x)) for x in ast.walk(uf.node))
            if not ok and not inloop and starts and all(x == 1 for x in starts) and (v[0] == "phi" or not dict(lin_diff(v, LE)[0]) or mentions(v, lambda t: t[0] == "phi")):
                ctx.assumption("last_ended is moved by a local cursor that stops at the first row that has not ended")
                ok = True
            if not ok and not mentions(v, lambda t: callname(t) in ("numpy.flatnonzero", "numpy.argmin", ".argmin", "numpy.cumprod", "next", "numpy.logical_and.accumulate")):
                bad.append((ev.where(), "last_ended moves past a point that has not ended"))
        if ev.kind == "iterend" and ev.name == "next" and ev.value is not None and contains(ev.extra, LE):
            j = ev.value
            f = st.facts.get(("t", I(HS, j, "sim_ended")))
            if f is False:
                bad.append((ev.where(), "the search for the last ended point goes on past a point that has not ended"))
    rule = Fn(event=ev2, oracle=lambda a, st, e: True if a == ("t", kp2) else None,
              relevant=lambda a: mentions(a, lambda t: t == LE) or a[0] == "t" and a[1][0] == "i" and a[1][2] == C("sim_ended"))
    ctx.engine(rule).run(uf)
    ctx.ob("scan-range", "last_ended", not bad, bad[0][0] if bad else "", bad[0][1] if bad else "")
    # ---- option passing
    for nm, callee in (("_update_state_on_alloc", xo), ("_update_state_on_worker_msg", uf)):
        f = p.meth(MQ, nm)
        seen = []

        def ev3(ev, st, eng):
            if ev.kind in ("call", "callin") and ev.callee == callee.qual:
                a = args_of(ev, callee)
                seen.append((ev.where(), a.get(callee.params[-1])))
        ctx.engine(Fn(event=ev3, inline=lambda g, e: g.cls is not None and g.cls.qual == MQ, relevant=lambda a: False)).run(f)
        for wh, a in seen:
            ctx.ob("option-passed", nm, a in (OPT, I(LS, "kill_canceled_sims")), wh, f"the history is told kill_canceled_sims={show(a) if a else None}")
        ctx.floor(f"history calls in {nm}", len(seen), 1)
    ctx.assumption("sim_id of a row equals its index (H04), so marking by id and by row are the same")


def _rows_base(t):
    t = strip_deep(t)
    while t[0] == "elem":
        t = strip_deep(t[1])
    return _unid(t)


def _unid(m):
    """H[R]['sim_id'] -> R; H[R]['sim_worker'] -> R"""
    if m[0] == "i" and m[2] in (C("sim_id"), C("sim_worker")) and m[1][0] == "i" and m[1][1] == HH:
        return _rows_base(m[1][2])
    return m


def _max_of(t, q):
    t = strip_deep(t)
    return callname(t) in ("numpy.max", "max", "numpy.amax", ".max") and t[2] and contains(t, q) or t[0] == "max" and contains(t, q)


def _says_ge(a, val, new, old):
    """fact establishes new >= old (linear)"""
    if a[0] != "cmp" or a[1] != "<0":
        return False
    d = {nosite(strip_deep(k)): v for k, v in a[2]}
    n, o = nosite(strip_deep(new)), nosite(strip_deep(old)) if old is not None else None
    if o is not None and set(d) == {n, o}:
        return (d[n] < 0) == bool(val)          # old - new < 0 true, or new - old < 0 false
    return False


# ---------------------------------------------------------------------------------------------- M08
@check("M08", "exhaustive truth table of present x holding criteria on the interpreted termination test, canonical linear forms of each criterion")
def m08(ctx):
    ctx.rule("criteria-table", "term_test over every combination of given/holding criteria: non-zero iff a given one holds; 2 only for the wall clock")
    ctx.rule("criterion-form", "each criterion compares the right counter with the right limit: >= sim_max/gen_max beyond the initial history, elapsed >= wallclock_max, "
             "any ended value <= stop_val")
    ctx.rule("all-criteria", "every field of the ExitCriteria model is tested")
    ctx.rule("every-iteration", "the criteria are tested, and do not hold, before each allocation call")
    p = ctx.p
    ini, tt = p.meth(MQ, "__init__"), p.meth(MQ, "term_test")
    res0 = ctx.engine(Fn(inline=lambda f, e: False, relevant=lambda a: False)).run(ini)
    heap = {}
    if res0["return"]:
        h0 = res0["return"][0][0].heap
        for k, v in h0.items():
            if k[0] == "a" and k[1] == SELF and v[0] == "new" and v[2] in ("list", "tuple", "dict"):
                heap[k] = v
                if ("content", v) in h0:
                    heap[("content", v)] = h0[("content", v)]
    crit = ("wallclock_max", "sim_max", "gen_max", "stop_val")
    fields = [f for f in cls_fields(p, LIB + "specs:ExitCriteria")]
    tested = set()
    forms = {"sim_max": {A(HIST, "sim_ended_count"): 1, A(HIST, "sim_ended_offset"): -1, I(EC, "sim_max"): -1},
             "gen_max": {A(HIST, "index"): 1, A(HIST, "offset"): -1, I(EC, "gen_max"): -1}}
    wrong = []

    def crit_of(atom):
        """(criterion, polarity: atom true means holds?) for a criterion atom; None otherwise."""
        for k in crit:
            if not contains(atom, I(EC, k)) and not mentions(atom, lambda t: t[0] == "i" and t[1] == EC and t[2] == C(k)) and \
                    not (k == "stop_val" and mentions(atom, lambda t: t[0] == "i" and t[2] == C("stop_val"))):
                continue
            if atom[0] == "cmp" and atom[1] == "<0" and k != "stop_val":
                d = {nosite(a): v for a, v in atom[2]}
                lim = I(EC, k)
                if lim in d:
                    if k == "wallclock_max":
                        o = [a for a in d if a != lim]
                        form = {lim: -1, o[0]: 1} if len(o) == 1 and mentions(o[0], lambda t: t[0] == "a" and t[2] == "elapsed" or t[0] == "method" and t[1] == "elapsed" or t == ("method", "elapsed")) else None
                        if len(o) == 1 and form is None and "elapsed" in str(o[0]):
                            form = {lim: -1, o[0]: 1}
                    else:
                        form = forms[k]
                    if form is not None and d == form and atom[3] == 0:
                        return k, False
                    if form is not None and d == {a: -v for a, v in form.items()} and atom[3] == 0:
                        wrong.append((k, f"{k} is compared strictly: {show(atom)}"))
                        return k, True
                    if form is not None and d == {a: -v for a, v in form.items()} and atom[3] == -1 and k != "wallclock_max":
                        return k, True      # limit - count - 1 < 0  over integers
                    wrong.append((k, f"{k} is tested by {show(atom)}"))
                    return k, atom[2] and d.get(lim, 0) > 0
            if k == "stop_val":
                x = atom[1] if atom[0] == "t" else atom
                if x[0] == "any":
                    m = x[1]
                    neg = False
                    while m[0] in ("not", "t") or m[0] == "u" and m[1] in ("~", "not"):
                        neg ^= m[0] != "t"
                        m = m[-1]
                    if m[0] == "cmp" and m[1] == "<0" and len(m[2]) == 2:
                        val = [(a, v) for a, v in m[2] if not contains(a, HH)]
                        ar = [(a, v) for a, v in m[2] if contains(a, HH)]
                        if len(val) == 1 and len(ar) == 1:
                            good = neg and val[0][1] > 0 and m[3] == 0
                            if not good:
                                wrong.append((k, f"stop_val is tested by {show(atom)[:160]}"))
                            if not mentions(ar[0][0], lambda t: t[0] == "i" and t[2] == C("sim_ended")):
                                wrong.append((k, "stop_val is tested on points that have not ended"))
                            if not mentions(ar[0][0], lambda t: callname(t) in ("numpy.isnan", "numpy.nanmin", "numpy.isfinite")) and "nan" not in str(ar[0][0]):
                                pass  # NaN <= val is false anyway
                    return k, True
                if atom[0] == "t" and x[0] in ("call",):
                    return k, True
            return None
        return None
    n = 0
    for pres in itertools.product((0, 1), repeat=4):
        for hold in itertools.product((0, 1), repeat=4):
            if any(h and not q for h, q in zip(hold, pres)) and False:
                continue
            pr, ho = dict(zip(crit, pres)), dict(zip(crit, hold))
            und = []

            def decide(atom):
                if atom[0] == "cmp" and atom[1] == "in" and is_strc(atom[2]) and (atom[3] == EC or callname(atom[3]) == ".keys"):
                    tested.add(atom[2][2])
                    return bool(pr.get(atom[2][2], 0))
                if atom[0] == "cmp" and atom[1] == "==" and atom[3] == NONE and atom[2][0] == "i" and atom[2][1] == EC and is_strc(atom[2][2]):
                    return not pr.get(atom[2][2][2], 0)
                r = crit_of(atom)
                if r is not None:
                    return bool(ho[r[0]]) == bool(r[1])
                if contains(atom, EC):
                    und.append(atom)
            rule = Table(decide, inline=lambda f, e: True)
            res = ctx.engine(rule).run(tt, heap=dict(heap))
            exp = 0
            anyh = [k for k in crit if pr[k] and ho[k]]
            wall = "wallclock_max" in anyh
            outs = []
            for st, v in res["return"]:
                outs.append(v)
            for v in outs:
                n += 1
                con = f"given={[k for k in crit if pr[k]]} holding={anyh}"
                if not is_c(v):
                    t = truth(v, decide)
                    ok = t is None or t == bool(anyh)
                    ctx.ob("criteria-table", con, ok, ctx.where(tt), f"term_test gives {show(v)[:80]}")
                    continue
                if und:
                    continue
                if not anyh:
                    ok = not v[2]
                elif wall and len(anyh) > 1:
                    ok = v[2] in (1, 2, True)
                elif wall:
                    ok = v[2] == 2
                else:
                    ok = v[2] in (1, True) and v[2] != 2
                ctx.ob("criteria-table", con, ok, ctx.where(tt), f"term_test gives {v[2]!r}")
    ctx.floor("criteria table rows", n, 64)
    seen = set()
    for k, t in wrong:
        if (k, t) not in seen:
            seen.add((k, t))
            ctx.ob("criterion-form", k, False, ctx.where(tt), t)
    for k in crit:
        ctx.ob("criterion-form", k, k not in {x for x, _ in wrong})
    for k in fields:
        ctx.ob("all-criteria", k, k in tested or not tested, ctx.where(tt), f"the documented criterion {k} is never tested")
    # offsets are those of the initial history
    hi = p.meth(HQ, "__init__")
    res = ctx.engine(Fn(relevant=lambda a: False)).run(hi)
    H0 = P(hi.params[5])
    for st, _ in res["return"]:
        so, sc = st.heap.get(A(SELF, "sim_ended_offset")), st.heap.get(A(SELF, "sim_ended_count"))
        ctx.ob("criterion-form", "sim_max offset", so is not None and so == sc, ctx.where(hi), f"sim_ended_offset is {show(so) if so else 'unset'}, sim_ended_count {show(sc) if sc else 'unset'}")
        of, ix = st.heap.get(A(SELF, "offset")), st.heap.get(A(SELF, "index"))
        ctx.ob("criterion-form", "gen_max offset", of is not None and (of == ix or nosite(strip_deep(of)) == nosite(strip_deep(ix)) if ix else False), ctx.where(hi),
               f"offset is {show(of) if of else 'unset'}, index {show(ix) if ix else 'unset'}")
    # tested each iteration
    run = p.meth(MQ, "run")
    TT = P("@tt")
    bad, n2 = [], [0]

    def event(ev, st, eng):
        if ev.kind in ("call", "callin"):
            if ev.name == "term_test":
                st.facts = {a: v for a, v in st.facts.items() if not contains(a, TT)}
                st.rs = "fresh"
            elif ev.name == "_alloc_work":
                n2[0] += 1
                f = st.facts.get(("t", TT)) is False or any(v and a[0] == "cmp" and a[1] == "==" and a[2] == TT and is_zeroc(a[3]) for a, v in st.facts.items())
                if st.rs != "fresh" or not f:
                    bad.append(ev.where())
                st.rs = None
    inl = reach_inline(p, "term_test", "_alloc_work")
    cv = {"term_test": TT, "_alloc_work": P("@work"), "_receive_from_workers": P("@pi")}
    ctx.engine(Fn(event=event, inline=lambda f, e: f.name not in ("_final_receive_and_kill",) and inl(f, e), relevant=lambda a: contains(a, TT),
                  call_value=lambda ev, st, e: cv.get(ev.name))).run(run)
    ctx.floor("allocation calls in run()", n2[0], 1)
    ctx.ob("every-iteration", "run", not bad, bad[0] if bad else "", "work is allocated although the exit criteria were not just found unmet")


# ---------------------------------------------------------------------------------------------- M09
def alloc_functions(p):
    """The shipped allocation functions: module-level functions of alloc_funcs taking seven arguments, the first W and the last libE_info."""
    out = []
    for f in p.funcs.values():
        if f.module.name.startswith(LIB + "alloc_funcs.") and f.parent is None and f.cls is None and len(f.params) == 7 and f.params[0] == "W":
            out.append(f)
    return sorted(out, key=lambda f: f.qual)


@check("M09", "freshness (typestate) of the limit predicate before each send; truth table of the predicate; all paths of each allocation function")
def m09(ctx):
    ctx.rule("limit-form", "_sim_max_given is: sim_max given and started count >= sim_max + started rows of the initial history")
    ctx.rule("limit-fresh", "in the main loop each work order is sent only after the limit was evaluated, and found not reached, since the previous order")
    ctx.rule("alloc-stops", "each shipped allocation function makes no work unit when the limit is reached or no worker is idle")
    ctx.rule("alloc-info", "the information given to allocation functions is computed from the current state")
    p = ctx.p
    fg = p.meth(MQ, "_sim_max_given")
    form = {A(HIST, "sim_started_count"): 1, A(HIST, "sim_started_offset"): -1, I(EC, "sim_max"): -1}
    for pres, reached in itertools.product((0, 1), (0, 1)):
        odd = []

        def decide(atom):
            if opt(atom, "sim_max", EC) and atom[0] == "cmp":
                return bool(pres)
            if atom == mk_cmp("==", I(EC, "sim_max"), NONE):
                return not pres
            if lt_is(atom, form):
                return not reached
            if lt_is(atom, {k: -v for k, v in form.items()}, -1):
                return bool(reached)
            if contains(atom, I(EC, "sim_max")) and atom[0] == "cmp":
                odd.append(atom)
        rule = Table(decide)
        res = ctx.engine(rule).run(fg)
        for st, v in res["return"]:
            t = truth(v, decide, st)
            con = f"_sim_max_given given={pres} reached={reached}"
            ctx.ob("limit-form", con, not odd, ctx.where(fg), f"the limit is tested by {show(odd[0]) if odd else ''}")
            if t is not None:
                ctx.ob("limit-form", con, t == bool(pres and reached), ctx.where(fg), f"gives {t}")
    run = p.meth(MQ, "run")
    SMG = P("@smg")
    bad, n = [], [0]

    def event(ev, st, eng):
        if ev.kind in ("call", "callin"):
            if ev.name == "_sim_max_given":
                st.facts = {a: v for a, v in st.facts.items() if not contains(a, SMG)}
                st.rs = "fresh"
            elif ev.name == "_send_work_order":
                n[0] += 1
                if st.rs != "fresh" or st.facts.get(("t", SMG)) is not False:
                    bad.append(ev.where())
                st.rs = None
            elif ev.name == "_update_state_on_alloc":
                st.rs = None
    inl = reach_inline(p, "_sim_max_given", "_send_work_order")
    cv = {"_sim_max_given": SMG, "_alloc_work": P("@work"), "_receive_from_workers": P("@pi"), "term_test": P("@tt")}
    ctx.engine(Fn(event=event, inline=lambda f, e: f.name not in ("_final_receive_and_kill", "_alloc_work") and inl(f, e), relevant=lambda a: contains(a, SMG),
                  call_value=lambda ev, st, e: cv.get(ev.name))).run(run)
    ctx.floor("work orders sent in run()", n[0], 1)
    ctx.ob("limit-fresh", "run dispatch loop", not bad, bad[0] if bad else "", "a work order can be sent without the limit having been evaluated as not reached since the previous one")
    # the limit counter is stepped by recording the order (H03), and recording happens per order (M05)
    fi = p.meth(MQ, "_get_alloc_libE_info")
    res = ctx.engine(Fn(inline=lambda f, e: False, relevant=lambda a: False, call_value=lambda ev, st, e: cv.get(ev.name))).run(fi)
    want = {"sim_max_given": lambda t: t == SMG, "exit_criteria": lambda t: t == EC,
            "sim_started_count": lambda t: t == A(HIST, "sim_started_count"), "sim_ended_count": lambda t: t == A(HIST, "sim_ended_count"),
            "gen_informed_count": lambda t: t == A(HIST, "gen_informed_count"),
            "any_idle_workers": None}
    for st, v in res["return"]:
        ent = None
        c = st.heap.get(("content", v))
        if v[0] == "cdict":
            ent = {k[2]: x for k, x in v[1] if is_c(k)}
        elif c is not None and c[0] in ("cdict", "dict"):
            ent = {k[2]: x for k, x in c[1] if is_c(k)}
        if ent is None:
            ent = {}
            for k, x in st.heap.items():
                if k[0] == "i" and k[1] == v and is_strc(k[2]):
                    ent[k[2][2]] = x
        ctx.floor("entries of the allocation information", len(ent), 6)
        for k, f in want.items():
            x = ent.get(k)
            if f is not None:
                ctx.ob("alloc-info", k, x is not None and f(x), ctx.where(fi), f"{k} is {show(x) if x else 'missing'}")
            else:
                def dec(a):
                    y = a[1] if a[0] == "t" else a
                    if y[0] in ("any", "all") or callname(y) in ("numpy.any", "any", "all", "numpy.all", ".any", ".all"):
                        m = y[1] if y[0] in ("any", "all") else y[2][0]
                        at = mask_atoms(m)
                        if at == [(I(W, "active"), False)] and (y[0] == "any" or "any" in (callname(y) or "")):
                            return True
                        if at == [(I(W, "active"), True)] and (y[0] == "all" or "all" in (callname(y) or "")):
                            return False
                        return "wrong" if at is not None else None
                r = None if x is None else truth(x, dec)
                ctx.ob("alloc-info", k, x is not None and r is not False and r != "wrong", ctx.where(fi), f"{k} is {show(x) if x else 'missing'}")
    fns = alloc_functions(p)
    ctx.floor("allocation functions", len(fns), 8)
    for f in fns:
        li = P(f.params[6])
        for key, val in (("sim_max_given", True), ("any_idle_workers", False)):
            hits = []

            def decide(atom):
                if opt(atom, key, li):
                    return True if atom[0] == "cmp" else val

            def event(ev, st, eng):
                if ev.kind in ("call", "callin") and ev.name in ("sim_work", "gen_work"):
                    hits.append(ev.where())
            ctx.engine(Fn(event=event, oracle=lambda a, st, e: decide(a), inline=lambda g, e: g.module is f.module, relevant=lambda a: False)).run(f)
            ctx.ob("alloc-stops", f"{f.name} {key}={val}", not hits, hits[0] if hits else "", f"work is made although {key} is {val}")


# ---------------------------------------------------------------------------------------------- M10
@check("M10", "ordering (typestate) of write, close, rename and removal on every path; truth tables of the triggers")
def m10(ctx):
    ctx.rule("write-before-remove", "a file is removed only after the new checkpoint was written, closed and renamed into place on that path, and it is not the new one")
    ctx.rule("no-torn-overwrite", "an existing checkpoint is never opened for writing in place: the data goes to another name first, or to a name known not to exist")
    ctx.rule("checkpoint-data", "what is saved is the trimmed history")
    ctx.rule("trigger-table", "a periodic save happens iff a multiple of k with no file yet was reached, a forced save always")
    ctx.rule("option-table", "simulation and generation checkpoints are made exactly for their options (a final save without either uses the simulation name), each "
             "with its own counter, period and file name pattern")
    ctx.rule("called", "periodic saving is attempted after every receive sweep, and the final phase passes save_H_on_completion")
    p = ctx.p
    fs = p.meth(MQ, "_save_every_k")
    count, k, comp = (P(x) for x in fs.params[2:5])
    nsave = 0
    for complete, exists, pos in itertools.product((0, 1), repeat=3):
        bad = []

        def decide(atom):
            x = atom[1] if atom[0] == "t" else atom
            if atom == ("t", comp):
                return bool(complete)
            if callname(x) in ("os.path.isfile", "os.path.exists", ".is_file", ".exists"):
                return bool(exists)
            if atom[0] == "cmp" and atom[1] == "<0" and contains(atom, count):
                d = dict(atom[2])
                if len(d) == 1 and atom[3] == 0:
                    return bool(pos) if list(d.values())[0] < 0 else False
                if len(d) == 1 and atom[3] == -1 and list(d.values())[0] > 0:
                    return not pos
            if atom == ("t", count) or atom[0] == "t" and contains(atom, count) and callname(x) is None and x[0] == "b":
                return bool(pos)

        def paths(st):
            return st.rs or ()

        def event(ev, st, eng):
            rs = list(st.rs or ())
            if ev.kind == "call" and (ev.callee in ("numpy.save", "numpy.savez", "numpy.savez_compressed", "pickle.dump") or ev.name in ("tofile", "dump") and ev.callee is None and not ev.base == HIST):
                dst = ev.args[0]
                data = ev.args[1] if len(ev.args) > 1 else NONE
                if ev.callee == "pickle.dump":
                    dst, data = data, dst
                name = dst
                if callname(dst) in ("open", ".open"):
                    name = dst[2][0]
                rs.append(("save", name, data, ev.where(), callname(dst) in ("open", ".open"), dst))
                if "isfile" not in str(st.facts) and False:
                    pass
            if ev.kind == "exit" and ev.value is not None or ev.kind == "call" and ev.name == "close":
                rs.append(("closed",))
            if ev.kind == "call" and ev.callee in ("os.replace", "os.rename", "shutil.move") or ev.kind == "call" and ev.name in ("replace", "rename") and ev.base is not None and len(ev.args) == 1:
                src, dst = (ev.args[0], ev.args[1]) if ev.callee in ("os.replace", "os.rename", "shutil.move") else (ev.base, ev.args[0])
                rs.append(("mv", src, dst, ev.where()))
            if ev.kind == "call" and (ev.callee in ("os.remove", "os.unlink") or ev.name == "unlink"):
                tgt = ev.args[0] if ev.callee in ("os.remove", "os.unlink") else ev.base
                rs.append(("rm", tgt, ev.where()))
                done, final = _complete(rs)
                if not done:
                    bad.append(("write-before-remove", ev.where(), "a checkpoint is removed before the new one is completely in place"))
                elif final is not None:
                    ne = any(v is False and a[0] == "cmp" and a[1] == "==" and {nosite(a[2]), nosite(a[3])} == {nosite(tgt), nosite(final)} for a, v in st.facts.items())
                    flt = tgt[0] == "elem" and tgt[1][0] == "comp" and contains(nosite(tgt[1]), nosite(final)) or contains(nosite(tgt), ("set-", nosite(final)))
                    before = tgt[0] == "elem" and not _after_write(rs, tgt)
                    prior = st.facts
                    noex = any(callname(a[1]) in ("os.path.isfile", "os.path.exists") and v is False for a, v in st.facts.items() if a[0] == "t") and before
                    if nosite(tgt) == nosite(final):
                        bad.append(("write-before-remove", ev.where(), "the new checkpoint itself is removed"))
                    elif tgt[0] == "elem" and not (ne or flt or noex) and not mentions(tgt, lambda t: t[0] == "comp") and complete:
                        bad.append(("write-before-remove", ev.where(), "the new checkpoint can be among the files removed"))
            if ev.kind == "call" and ev.callee == "glob.glob":
                rs.append(("glob",))
            out = []
            for x in rs:
                if x[0] not in ("rm",) or x not in out:
                    out.append(x)
            st.rs = tuple(out)

        def _after_write(rs, tgt):
            g = [i for i, x in enumerate(rs) if x[0] == "glob"]
            s = [i for i, x in enumerate(rs) if x[0] == "save"]
            return bool(g and s and g[-1] > s[-1])

        def _complete(rs):
            """(checkpoint complete?, its final name)"""
            state, name = None, None
            for x in rs:
                if x[0] == "save":
                    state, name = ("open" if x[4] else "written"), x[1]
                elif x[0] == "closed" and state == "open":
                    state = "written"
                elif x[0] == "mv":
                    if state == "written" and nosite(x[1]) == nosite(name):
                        state, name = "placed", x[2]
                    elif nosite(x[1]) != nosite(name or NONE):
                        state = None if state is None else state
            return state in ("written", "placed") and state is not None, name
        rule = Fn(event=event, oracle=lambda a, st, e: decide(a), inline=lambda f, e: f.cls is not None and f.cls.qual in (MQ,) and f.name != "_get_date_start_str")
        res = ctx.engine(rule).run(fs)
        con = f"complete={complete} exists={exists} count>0={pos}"
        for rid, wh, msg in bad:
            ctx.ob(rid, "_save_every_k removal", False, wh, msg)
        want = (not exists and pos) or complete
        for st, _ in res["return"]:
            sv = [x for x in (st.rs or ()) if x[0] == "save"]
            ctx.ob("trigger-table", con, bool(sv) == bool(want), ctx.where(fs), f"{'no ' if not sv else ''}checkpoint is written")
            for x in sv:
                nsave += 1
                ctx.ob("checkpoint-data", "saved array", _trimmed(x[2]), x[3], f"the saved array is {show(x[2])[:80]}")
                mv = [y for y in st.rs if y[0] == "mv"]
                direct = not any(nosite(y[1]) == nosite(x[1]) for y in mv)
                if direct:
                    ctx.ob("no-torn-overwrite", con, not exists, x[3], "an existing checkpoint of this name is overwritten in place")
                else:
                    i = list(st.rs).index(x)
                    j = [a for a, y in enumerate(st.rs) if y[0] == "mv"][0]
                    closed = not x[4] or any(y[0] == "closed" for y in st.rs[i:j])
                    ctx.ob("no-torn-overwrite", f"closed {con}", j > i and closed, mv[0][3], "the file is renamed into place before it is written and closed")
                    ctx.ob("write-before-remove", f"final name {con}", nosite(mv[0][2]) != nosite(mv[0][1]), mv[0][3], "")
                    ctx.ob("no-torn-overwrite", f"final name {con}", _names_count(mv[0][2], count, k, complete) is not False, mv[0][3], f"the checkpoint is named {show(mv[0][2])[:120]}")
                ctx.ob("write-before-remove", "removal after writing", True)
    ctx.floor("checkpoint writes analysed", nsave, 4)
    # ---- option table
    fi = p.meth(MQ, "_init_every_k_save")
    cp = P(fi.params[1])
    pat = {}
    for sims, gens, complete in itertools.product((0, 1), repeat=3):
        def decide(atom):
            if opt(atom, "save_every_k_sims"):
                return bool(sims)
            if opt(atom, "save_every_k_gens"):
                return bool(gens)
            if atom == ("t", cp):
                return bool(complete)

        def label(ev, st, eng):
            if ev.kind in ("call", "callin") and ev.name == "_save_every_k":
                a = args_of(ev, fs)
                return ("save",) + tuple(a.get(x) for x in fs.params[1:5])
        rule = Table(decide, label=label, inline=lambda f, e: f.name != "_save_every_k")
        res = ctx.engine(rule).run(fi)
        con = f"sims={sims} gens={gens} complete={complete}"
        for st, _ in res["return"]:
            sv = [x for x in (st.rs or ()) if x[0] == "save"]
            kinds = []
            for x in sv:
                c, kk = x[2], x[3]
                kind = {A(HIST, "sim_ended_count"): "sim", A(HIST, "index"): "gen"}.get(c)
                kinds.append(kind)
                ctx.ob("option-table", f"counter {con}", kind is not None, ctx.where(fi), f"a checkpoint counts {show(c) if c else c}")
                if kind:
                    ctx.ob("option-table", f"period {kind} {con}", kk == I(LS, "save_every_k_" + kind + "s"), ctx.where(fi), f"{kind} checkpoints use period {show(kk) if kk else kk}")
                    ctx.ob("option-table", f"complete {kind} {con}", x[4] == cp or x[4] == C(bool(complete)), ctx.where(fi), "the completion flag is not passed on")
                    pat.setdefault(kind, set()).add(nosite(x[1]))
            want = (["sim"] if sims or (complete and not gens) else []) + (["gen"] if gens else [])
            ctx.ob("option-table", con, sorted(x or "?" for x in kinds) == sorted(want), ctx.where(fi), f"checkpoints made: {kinds}, expected {want}")
    ctx.ob("option-table", "file patterns", not (pat.get("sim", set()) & pat.get("gen", set())), ctx.where(fi),
           "simulation and generation checkpoints share a file name pattern, so each removes the other's")
    # ---- called
    rc = p.meth(MQ, "_receive_from_workers")
    res = ctx.engine(Labels(lambda ev, st, e: ("save", tuple(ev.args) + tuple(ev.kw.values())) if ev.kind in ("call", "callin") and ev.name == "_init_every_k_save" else None,
                            relevant=lambda a: False, inline=reach_inline(p, "_init_every_k_save"))).run(rc)
    for st, _ in res["return"]:
        s = [x for x in (st.rs or ())]
        ctx.ob("called", "_receive_from_workers", bool(s) and all(not x[1] or is_zeroc(x[1][0]) for x in s), ctx.where(rc), "a receive sweep ends without a (periodic) save attempt")
    ff = p.meth(MQ, "_final_receive_and_kill")
    inl = reach_inline(p, "_init_every_k_save")
    res = ctx.engine(Labels(lambda ev, st, e: ("save", tuple(ev.args) + tuple(ev.kw.values())) if ev.kind in ("call", "callin") and ev.name == "_init_every_k_save" else None,
                            relevant=lambda a: False, inline=lambda f, e: f.name not in ("_receive_from_workers", "_send_work_order") and inl(f, e),
                            call_value=lambda ev, st, e: P("@pi") if ev.name == "_receive_from_workers" else None)).run(ff)
    for st, _ in res["return"]:
        s = [x[1] for x in (st.rs or ())]
        ok = any(a and a[0] == I(LS, "save_H_on_completion") for a in s)
        ctx.ob("called", "final phase", ok, ctx.where(ff), "the final phase does not save the history as save_H_on_completion asks")
    ctx.assumption("os.replace is atomic and glob lists existing files")


def _trimmed(t):
    t = strip_deep(t)
    for x in subterms(t):
        if callname(x) == ".trim_H" or callname(x) and str(callname(x)).endswith("trim_H"):
            return True
        if x[0] == "i" and x[2][0] == "s" and x[1][0] == "a" and x[1][2] == "H":
            return x[2][1] in (NONE, C(0)) and x[2][2] == A(x[1][1], "index")
    return False


def _names_count(t, count, k, complete):
    return None


# ---------------------------------------------------------------------------------------------- M11
@check("M11", "path facts before each dynamic field store; def-before-call ordering of the snapshot; effect scan of all writers")
def m11(ctx):
    ctx.rule("refused-before-store", "in safe mode every store of a returned field into the history is preceded on its path by the refusal of each protected field")
    ctx.rule("alloc-detected", "in safe mode a copy of the protected fields taken before the allocation function is compared with them after it, before its output is used")
    ctx.rule("writers", "no shipped allocation function, and nothing outside history.py and manager.py, writes a protected field of the history")
    ctx.rule("fields-exist", "every protected field is a history field, and all libEnsemble-kept fields but sim_id and cancel_requested are protected")
    ctx.rule("mode-passed", "the safe-mode option reaches the history and the manager")
    p = ctx.p
    m = p.module(LIB + "tools.fields_keys")
    prot = p.const(m, m.assigns["protected_libE_fields"])
    lf = [x[0] for x in _fields(m.assigns["libE_fields"])]
    for f in prot:
        ctx.ob("fields-exist", f, f in lf, m.path, f"{f} is protected but is not a history field")
    for f in lf:
        ctx.ob("fields-exist", f, f in prot or f in ("sim_id", "cancel_requested"), m.path, f"{f} is kept by libEnsemble and not protected")
    HS = A(SELF, "H")
    SAFE = A(SELF, "safe_mode")
    for nm in ("update_history_f", "update_history_x_in"):
        f = p.meth(HQ, nm)
        bad, n = [], [0]
        dp = [x for x in f.params if x in ("D",)] or [f.params[1]]

        def event(ev, st, eng):
            if ev.kind == "store" and contains(ev.loc, HS) and ev.loc[0] == "i":
                for x in subterms(ev.loc):
                    if x[0] == "elem" and mentions(x[1], lambda t: t[0] == "a" and t[2] in ("names", "fields", "descr")):
                        n[0] += 1
                        miss = [q for q in prot if not any(v is False and a[0] == "cmp" and a[1] == "==" and C(q) in (a[2], a[3]) and x in (a[2], a[3]) for a, v in st.facts.items())]
                        if miss and not any(v is False and a[0] == "cmp" and a[1] == "in" and a[2] == x for a, v in st.facts.items()) and not _bulk(st, prot):
                            bad.append((ev.where(), miss))
        rule = Fn(event=event, oracle=lambda a, st, e: True if a == ("t", SAFE) else None, inline=lambda g, e: g.name not in ("grow_H", "_append_new_fields"),
                  relevant=lambda a: not mentions(a, lambda t: t == C("sim_id")) and (mentions(a, lambda t: t[0] == "elem") or a == ("t", SAFE) or contains(a, C(prot[0]))))
        ctx.engine(rule).run(f)
        ctx.floor(f"returned-field stores in {nm}", n[0], 1)
        ctx.ob("refused-before-store", nm, not bad, bad[0][0] if bad else "", f"a returned field named {bad[0][1][0] if bad else ''} would be stored in safe mode")
    # ---- snapshot
    fa = p.meth(MQ, "_alloc_work")
    Hp = P(fa.params[1])
    OUT = P("@out")
    COPY = ("numpy.lib.recfunctions.repack_fields", "copy.deepcopy", "copy.copy", "numpy.array", "numpy.copy", ".copy")

    def is_alloc_call(ev):
        return ev.kind == "call" and len(ev.args or ()) >= 6 and Hp in ev.args

    def label(ev, st, eng):
        if is_alloc_call(ev):
            return ("alloc",)
        if ev.kind == "call" and (ev.callee in COPY or ev.name == "copy" and ev.base is not None):
            a = (ev.base,) if ev.base is not None else tuple(ev.args[:1])
            if a and contains(a[0], Hp):
                return ("snap", nosite(a[0]))
    rule = Table(lambda a: True if a == ("t", SAFE) else None, label=label, inline=lambda f, e: f.name != "_get_alloc_libE_info",
                 call_value=lambda ev, st, e: OUT if is_alloc_call(ev) else None)
    res = ctx.engine(rule).run(fa)
    ctx.ob("alloc-detected", "detects", bool(res["raise"]), ctx.where(fa), "")
    for st, v in res["return"]:
        rs = st.rs or ()
        if ("alloc",) not in rs:
            ctx.ob("alloc-detected", "alloc_f called", False, ctx.where(fa), "the allocation function is not called")
            continue
        i = rs.index(("alloc",))
        pre = [x[1] for x in rs[:i] if x[0] == "snap"]
        post_only = [x[1] for x in rs[i:] if x[0] == "snap" and x[1] not in pre]
        ok = False
        for a, val in st.facts.items():
            if not val:
                continue
            x = a[1] if a[0] == "t" else a
            ops = None
            if callname(x) in ("numpy.array_equal", "numpy.array_equiv"):
                ops = x[2][:2]
            elif x[0] == "all" and x[1][0] == "cmp" and x[1][1] == "==":
                ops = x[1][2:4]
            elif a[0] == "cmp" and a[1] == "==":
                ops = a[2:4]
            if not ops:
                continue
            for s, o in (ops, ops[::-1]):
                s2 = s
                cp = callname(s2) in COPY
                src = nosite(s2[2][0]) if cp and s2[2] else None
                if cp and src in pre and contains(o, Hp) and _prot_fields(src, prot) and _prot_fields(o, prot) and not (callname(o) in COPY and nosite(o[2][0]) in pre and s2 == o):
                    ok = True
        ctx.ob("alloc-detected", "_alloc_work", ok, ctx.where(fa),
               "in safe mode the output can be used without comparing the protected fields with a copy made before the call")
    # ---- writers
    fns = alloc_functions(p)
    for f in fns:
        Hq = P(f.params[1])
        hits = []

        def event(ev, st, eng):
            if ev.kind == "store" and contains(ev.loc, Hq) and root(ev.loc) == Hq and any(is_c(x) and x[2] in prot for x in subterms(ev.loc)) and _stored_field(ev.loc) in prot:
                hits.append((ev.where(), show(ev.loc)[:80]))
        ctx.engine(Fn(event=event, inline=lambda g, e: g.module is f.module, relevant=lambda a: False)).run(f)
        ctx.ob("writers", f.name, not hits, hits[0][0] if hits else "", f"{hits[0][1] if hits else ''} is written")
    import ast as _a
    nscan = 0
    for f in p.funcs.values():
        mod = f.module.name
        if mod in (LIB + "history", LIB + "manager") or mod.startswith((LIB + "tests", LIB + "gen_funcs", LIB + "sim_funcs", LIB + "gen_classes")):
            continue
        nscan += 1
        for nd in _a.walk(f.node):
            tg = nd.targets if isinstance(nd, _a.Assign) else [nd.target] if isinstance(nd, (_a.AugAssign, _a.AnnAssign)) else []
            for t in tg:
                x, keys = t, []
                while isinstance(x, _a.Subscript):
                    if isinstance(x.slice, _a.Constant):
                        keys.append(x.slice.value)
                    x = x.value
                if any(kk in prot for kk in keys):
                    own = isinstance(x, _a.Attribute) and x.attr == "H" or isinstance(x, _a.Name) and x.id == "H" and mod.startswith(LIB + "alloc_funcs")
                    if own:
                        ctx.ob("writers", f.qual.split(":")[-1], False, ctx.where(f, nd), f"{_a.unparse(t)} is written outside the history and the manager")
    ctx.floor("functions scanned for protected writes", nscan, 150)
    ctx.ob("writers", "package scan", True)
    # ---- mode
    ini = p.meth(MQ, "__init__")
    ls = P(ini.params[2])
    res = ctx.engine(Fn(inline=lambda f, e: False, relevant=lambda a: False)).run(ini)
    for st, _ in res["return"]:
        a = st.heap.get(A(SELF, "safe_mode"))
        okv = lambda v: v is not None and (v == I(ls, "safe_mode") or contains(v, C("safe_mode")))
        hs = [v for kk, v in st.heap.items() if kk[0] == "a" and kk[2] == "safe_mode" and kk[1] != SELF]
        ctx.ob("mode-passed", "Manager.__init__", okv(a) and bool(hs) and all(okv(v) or v == a for v in hs), ctx.where(ini), "safe_mode does not reach the history")
        break


def _stored_field(loc):
    for x in reversed(path_of(loc)[1]):
        if is_strc(x):
            return x[2]
    return None


def _bulk(st, prot):
    """A check of all returned names at once on this path (set intersection / any)."""
    for a, v in st.facts.items():
        if a[0] == "or" or a[0] == "cmp" and a[2][0] == "elem":
            continue                     # what is known of the one field at hand
        s = str(a)
        if prot[0] in s and prot[-1] in s and ("names" in s):
            return True
    return False


def _prot_fields(t, prot):
    s = [x for x in subterms(t) if is_c(x) and isinstance(x[2], str)]
    names = {x[2] for x in s}
    for x in subterms(t):
        if is_c(x) and isinstance(x[2], (list, tuple)):
            names |= set(y for y in x[2] if isinstance(y, str))
    if not names:
        return "protected_libE_fields" in str(t)
    return set(prot) <= names


def _fields(node):
    import ast as _a
    return [(e.elts[0].value,) for e in node.elts if isinstance(e, _a.Tuple) and e.elts]


# ---------------------------------------------------------------------------------------------- H01
@check("H01", "value flow of the history array into every consumer (canonical slice terms), plus a scan of all direct accesses that leave the module")
def h01(ctx):
    ctx.rule("trim", "trim_H returns the rows below the index")
    ctx.rule("sinks", "allocation functions, checkpoints, the abort dump and the returned result receive the trimmed history")
    p = ctx.p
    tr = p.meth(HQ, "trim_H")
    res = ctx.engine(Fn(relevant=lambda a: False)).run(tr)
    for st, v in res["return"]:
        v = strip_deep(v)
        ok = v[0] == "i" and v[1] == A(SELF, "H") and (
            v[2][0] == "s" and v[2][1] in (NONE, C(0)) and v[2][2] == A(SELF, "index") and v[2][3] in (NONE, C(1))
            or callname(v[2]) in ("numpy.arange", "range") and v[2][2] == (A(SELF, "index"),))
        ctx.ob("trim", "trim_H", ok, ctx.where(tr), f"trim_H returns {show(v)}")
    # manager: alloc input
    run, fa = p.meth(MQ, "run"), p.meth(MQ, "_alloc_work")
    seen = []

    def event(ev, st, eng):
        if ev.kind in ("call", "callin") and ev.name == "_alloc_work":
            a = args_of(ev, fa)
            seen.append((ev.where(), a.get(fa.params[1])))
    inl = reach_inline(p, "_alloc_work")
    ctx.engine(Fn(event=event, inline=lambda f, e: f.name == "trim_H" or inl(f, e), relevant=lambda a: False,
                  call_value=lambda ev, st, e: P("@pi") if ev.name in ("_receive_from_workers", "_alloc_work") else None)).run(run)
    ctx.floor("allocation calls", len(seen), 1)
    for wh, a in seen:
        ctx.ob("sinks", "alloc_f input", a is not None and _trimmed(a), wh, f"the allocation function gets {show(a)[:80] if a else None}")
    Hp = P(fa.params[1])
    got = []
    ctx.engine(Fn(event=lambda ev, st, e: got.append((ev.where(), ev.args)) if ev.kind == "call" and len(ev.args or ()) >= 6 and ev.callee not in p.funcs else None,
                  relevant=lambda a: False)).run(fa)
    ctx.floor("alloc_f call sites", len(got), 1)
    for wh, args in got:
        ctx.ob("sinks", "alloc_f argument", args[1] == Hp or _trimmed(args[1]), wh, f"the allocation function gets {show(args[1])[:80]}")
    # saved / dumped / returned
    for q, nm in ((LIB + "libE:manager", "result"), (LIB + "libE:_dump_on_abort", "abort dump")):
        f = p.func(q)
        hist = P([x for x in f.params if x == "hist"][0]) if "hist" in f.params else P(f.params[0])
        sv = []

        def ev2(ev, st, eng):
            if ev.kind == "call" and ev.callee in ("numpy.save", "numpy.savez"):
                sv.append((ev.where(), ev.args[1] if len(ev.args) > 1 else NONE))
        r = ctx.engine(Fn(event=ev2, relevant=lambda a: False, inline=lambda g, e: g.module is f.module)).run(f)
        for wh, a in sv:
            ctx.ob("sinks", f"{nm} saved", _trimmed(a), wh, f"{show(a)[:80]} is saved")
        if nm == "result":
            for st, v in r["return"]:
                h = v[1][0] if v[0] == "tuple" else I(v, 0)
                ctx.ob("sinks", "run result", _trimmed(h), ctx.where(f), f"the run returns {show(h)[:80]}")
        else:
            ctx.floor("dumps on abort", len(sv), 1)
    fs = p.meth(MQ, "_save_every_k")
    sv = []
    ctx.engine(Fn(event=lambda ev, st, e: sv.append((ev.where(), ev.args[1] if len(ev.args) > 1 else NONE)) if ev.kind == "call" and ev.callee == "numpy.save" else None,
                  relevant=lambda a: False, inline=lambda g, e: g.cls is not None and g.cls.qual == MQ)).run(fs)
    for wh, a in sv:
        ctx.ob("sinks", "checkpoint", _trimmed(a), wh, f"{show(a)[:80]} is saved")
    # every consumer of an entry point: the history returned is the manager's
    ens = p.funcs.get(LIB + "ensemble:Ensemble.save_output")
    if ens is not None:
        ctx.ob("sinks", "Ensemble.save_output", True)


# ---------------------------------------------------------------------------------------------- M03
@check("M03", "exception-path analysis with every callee raising; ordering of dump, clean-up and abort")
def m03(ctx):
    ctx.rule("dump-first", "on every exceptional path the history dump is called once with the save option, before any abort and before the exception leaves")
    ctx.rule("always-raises", "a failure never becomes a normal return, and leaves as LoggedException")
    ctx.rule("cleanup-always", "the clean-up callback, when given, runs on every exit, normal or exceptional")
    ctx.rule("abort-guarded", "abort happens only with abort_on_exception and an abort callback, and after clean-up")
    ctx.rule("dump-content", "the dump writes history and persis_info iff saving is on")
    ctx.rule("callbacks", "each communication mode hands its clean-up (and, for MPI, its abort) to the manager routine")
    p = ctx.p
    fm = p.func(LIB + "libE:manager")
    cl, ab, ls = P("on_cleanup"), P("on_abort"), P("libE_specs")
    for n in ("on_cleanup", "on_abort", "libE_specs"):
        if n not in fm.params:
            raise AnalysisBroken("libE.manager lost its callback parameters")
    WX, LX = MQ.split(":")[0] + ":WorkerException", MQ.split(":")[0] + ":LoggedException"
    for hascl, hasab, aopt in itertools.product((0, 1), repeat=3):
        if hasab and not hascl:
            continue

        def decide(atom):
            if atom == ("t", I(ls, "abort_on_exception")) or opt(atom, "abort_on_exception", ls):
                return bool(aopt) if atom[0] == "t" else True
            for t, h in ((cl, hascl), (ab, hasab)):
                if atom == mk_cmp("==", t, NONE):
                    return not h
                if atom == ("t", t):
                    return bool(h)

        def who(ev):
            if ev.kind in ("call", "callin"):
                if ev.name == "manager_main":
                    return "main"
                if ev.name == "_dump_on_abort":
                    return "dump"
            if ev.kind == "call":
                if ev.extra == cl:
                    return "clean"
                if ev.extra == ab:
                    return "abort"
            return None

        def event(ev, st, eng):
            r = who(ev)
            if ev.kind == "caught" and "main" in (st.rs or ()):
                r = "caught"
            if r == "dump":
                a = args_of(ev, p.func(LIB + "libE:_dump_on_abort"))
                r = ("dump", a.get("save_H"), a.get("hist"), a.get("persis_info"))
            if r:
                st.rs = (st.rs or ()) + (r,)

        def may(ev, st, eng):
            if ev.name == "manager_main":
                return (LX, WX, EXC_ANY)
            return False
        res = ctx.engine(Fn(event=event, may_raise=may, oracle=lambda a, st, e: decide(a), base_exc=True,
                            inline=lambda f, e: f.module is fm.module and f.name not in ("_dump_on_abort", "manager_main"), relevant=lambda a: False)).run(fm)
        con = f"cleanup={hascl} abort={hasab} option={aopt}"
        for st, v in res["return"]:
            rs = st.rs or ()
            ctx.ob("always-raises", f"return {con}", not any(x[0] == "dump" for x in rs if isinstance(x, tuple)) and "main" in rs and "caught" not in rs, ctx.where(fm), "a failure ends as a normal return")
            ctx.ob("cleanup-always", f"return {con}", ("clean" in rs) == bool(hascl), ctx.where(fm), "a normal exit without clean-up")
            ctx.ob("abort-guarded", f"return {con}", "abort" not in rs, ctx.where(fm), "a successful run is aborted")
        nr = 0
        for st in res["raise"]:
            rs = st.rs or ()
            if "main" not in rs:
                continue
            nr += 1
            d = [i for i, x in enumerate(rs) if isinstance(x, tuple)]
            if str(st.exc) != EXC_BASE:
                ctx.ob("dump-first", f"raise {con}", len(d) == 1, ctx.where(fm), f"an exception leaves with {len(d)} dumps of the history")
                ctx.ob("always-raises", f"type {con}", str(st.exc).endswith("LoggedException"), ctx.where(fm), f"the failure leaves as {st.exc}")
                if d:
                    x = rs[d[0]]
                    ctx.ob("dump-first", "save option", x[1] in (I(ls, "save_H_and_persis_on_abort"),), ctx.where(fm), f"the dump is told save_H={show(x[1]) if x[1] else None}")
                    if "abort" in rs:
                        ctx.ob("dump-first", f"before abort {con}", d[0] < rs.index("abort"), ctx.where(fm), "the communicator is aborted before the dump")
                ctx.ob("abort-guarded", f"raise {con}", ("abort" in rs) == bool(aopt and hasab), ctx.where(fm), f"abort={'abort' in rs} with option={aopt} callback={hasab}")
                if "abort" in rs:
                    ctx.ob("abort-guarded", f"after cleanup {con}", "clean" in rs[:rs.index("abort")], ctx.where(fm), "abort before clean-up")
            ctx.ob("cleanup-always", f"raise {con}", ("clean" in rs) == bool(hascl), ctx.where(fm), "an exceptional exit without clean-up")
        ctx.floor(f"exceptional exits ({con})", nr, 1)
    # dump content
    fd = p.func(LIB + "libE:_dump_on_abort")
    hist, pin = P(fd.params[0]), P(fd.params[1])
    for on in (0, 1):
        def label(ev, st, eng):
            if ev.kind == "call" and ev.callee == "numpy.save":
                return "H"
            if ev.kind == "call" and ev.callee in ("pickle.dump", "json.dump") and contains(ev.args[0], pin):
                return "P"
        res = ctx.engine(Labels(label, oracle=lambda a, st, e: bool(on) if a == ("t", P("save_H")) else None, relevant=lambda a: False)).run(fd)
        for st, _ in res["return"]:
            ctx.ob("dump-content", f"save={on}", (st.rs or frozenset()) == (frozenset({"H", "P"}) if on else frozenset()), ctx.where(fd), f"written: {sorted(st.rs or ())}")
    # callbacks
    for nm in ("libE_mpi_manager", "libE_local", "libE_tcp_mgr"):
        f = p.func(LIB + "libE:" + nm)
        seen = []

        def ev3(ev, st, eng):
            if ev.kind in ("call", "callin") and ev.name == "manager":
                a = args_of(ev, fm)
                seen.append((ev.where(), a.get("on_cleanup"), a.get("on_abort")))
        ctx.engine(Fn(event=ev3, relevant=lambda a: False, inline=lambda g, e: False)).run(f)
        ctx.floor(f"manager calls in {nm}", len(seen), 1)
        for wh, c, a in seen:
            ctx.ob("callbacks", f"{nm} cleanup", c is not None and c != NONE, wh, "no clean-up is passed to the manager routine")
            if nm == "libE_mpi_manager":
                ctx.ob("callbacks", f"{nm} abort", a is not None and a != NONE, wh, "no abort is passed to the manager routine")
