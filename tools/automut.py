#!/usr/bin/env python3
"""Developer tool: systematic small mutants (deleted statements, negated guards, swapped operators, ...) of the core files;
runs the checks that analysed the mutated function and lists the mutants nobody notices.
usage: automut.py OUT.jsonl FILE... (paths relative to libensemble)   env J=jobs ONLY=substring of function"""
import ast, concurrent.futures as cf, copy, json, os, shutil, sys, tempfile, time, signal
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sa.loader import Project
from sa.report import Ctx, AnalysisBroken, known_findings
from sa.rules import CHECKS
SLOW = {"P02"}


def base(i):
    ctx = Ctx(i, Project("/repo"), "quick")
    CHECKS[i](ctx)
    fns = set()
    for e in ctx.engines:
        fns |= {str(f) for f in e.funcs_seen}
    wh = {str(o[3]) for o in ctx.obs}
    return i, fns, wh


def coverage():
    cov = {}
    with cf.ProcessPoolExecutor(int(os.environ.get("J", 6))) as ex:
        for i, fns, wh in ex.map(base, sorted(CHECKS)):
            cov[i] = [sorted(fns), sorted(wh)]
    return cov


def is_log(n):
    return isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and (ast.unparse(n.value.func).split(".")[0] in ("logger", "print", "warnings") or ".info" in ast.unparse(n.value.func))


def mutants(src):
    """(line, function, description, new source)"""
    tree = ast.parse(src)
    stack = []
    sites = []

    def walk(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            fn = (fn + "." if fn else "") + n.name
        for field, v in ast.iter_fields(n):
            if isinstance(v, list):
                for k, x in enumerate(v):
                    if isinstance(x, ast.AST):
                        sites.append((n, field, k, x, fn))
                        walk(x, fn)
            elif isinstance(v, ast.AST):
                sites.append((n, field, None, v, fn))
                walk(v, fn)
    walk(tree, "")
    out = []

    def emit(parent, field, k, new, fn, what, node):
        old = getattr(parent, field)[k] if k is not None else getattr(parent, field)
        if k is not None:
            getattr(parent, field)[k] = new
        else:
            setattr(parent, field, new)
        try:
            s = ast.unparse(ast.fix_missing_locations(tree))
            out.append((node.lineno, fn, what, s))
        except Exception:
            pass
        if k is not None:
            getattr(parent, field)[k] = old
        else:
            setattr(parent, field, old)
    NEG = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
    for p, f, k, n, fn in sites:
        if not fn or isinstance(p, ast.arguments) or f in ("annotation", "returns", "decorator_list"):
            continue
        if isinstance(n, ast.stmt) and f in ("body", "orelse", "finalbody"):
            if is_log(n) or isinstance(n, (ast.Pass, ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Global)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                continue
            if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Break, ast.Continue, ast.Assert, ast.Delete)) or isinstance(n, ast.Return) and n.value is None:
                if isinstance(n, ast.Assign) and all(isinstance(t, ast.Name) for t in n.targets):
                    continue
                emit(p, f, k, ast.Pass(), fn, "delete: " + ast.unparse(n)[:90], n)
            if isinstance(n, (ast.If, ast.While)):
                emit(n, "test", None, ast.UnaryOp(ast.Not(), n.test), fn, "negate: " + ast.unparse(n.test)[:90], n)
                if isinstance(n, ast.If):
                    emit(n, "test", None, ast.Constant(True), fn, "always: " + ast.unparse(n.test)[:90], n)
                    emit(n, "test", None, ast.Constant(False), fn, "never: " + ast.unparse(n.test)[:90], n)
            if isinstance(n, ast.AugAssign) and isinstance(n.op, (ast.Add, ast.Sub)):
                emit(n, "op", None, ast.Sub() if isinstance(n.op, ast.Add) else ast.Add(), fn, "augop: " + ast.unparse(n)[:90], n)
            if isinstance(n, ast.Try) and n.finalbody:
                emit(n, "finalbody", None, [ast.Pass()], fn, "no finally", n)
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in NEG:
            emit(n, "ops", 0, NEG[type(n.ops[0])](), fn, "cmp: " + ast.unparse(n)[:90], n)
        if isinstance(n, ast.BoolOp):
            for j in range(len(n.values)):
                if len(n.values) == 2:
                    emit(p, f, k, n.values[1 - j], fn, f"drop operand {j}: " + ast.unparse(n)[:90], n)
                else:
                    old = n.values
                    n2 = ast.BoolOp(n.op, old[:j] + old[j + 1:])
                    emit(p, f, k, n2, fn, f"drop operand {j}: " + ast.unparse(n)[:90], n)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.Invert)):
            emit(p, f, k, n.operand, fn, "drop not: " + ast.unparse(n)[:90], n)
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)) and not any(isinstance(x, ast.Constant) and isinstance(x.value, str) or isinstance(x, ast.JoinedStr) for x in (n.left, n.right)):
            emit(n, "op", None, ast.Sub() if isinstance(n.op, ast.Add) else ast.Add(), fn, "binop: " + ast.unparse(n)[:90], n)
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.BitAnd, ast.BitOr)):
            emit(p, f, k, n.left, fn, "drop right: " + ast.unparse(n)[:90], n)
            emit(p, f, k, n.right, fn, "drop left: " + ast.unparse(n)[:90], n)
        if isinstance(n, ast.Constant) and isinstance(n.value, (bool, int)) and not isinstance(p, (ast.JoinedStr, ast.FormattedValue, ast.Expr)):
            v = n.value
            emit(p, f, k, ast.Constant((not v) if isinstance(v, bool) else (v + 1)), fn, f"const {v}: " + ast.unparse(p)[:90].replace("\n", " "), n)
        if isinstance(n, ast.Call):
            for j, kw in enumerate(n.keywords):
                if kw.arg:
                    n2 = ast.Call(n.func, n.args, n.keywords[:j] + n.keywords[j + 1:])
                    emit(p, f, k, n2, fn, f"drop kw {kw.arg}: " + ast.unparse(n)[:90].replace("\n", " "), n)
    return out


def tmo(*a):
    raise TimeoutError()


def one(job):
    file, line, fn, what, src, ids = job
    d = tempfile.mkdtemp(prefix="am_")
    try:
        shutil.copytree("/repo/libensemble", d + "/libensemble", ignore=shutil.ignore_patterns("tests", "__pycache__", "*.npy"))
        open(f"{d}/libensemble/{file}", "w").write(src)
        broken = []
        for i in ids:
            signal.signal(signal.SIGALRM, tmo)
            signal.alarm(150)
            try:
                ctx = Ctx(i, Project(d), "quick")
                CHECKS[i](ctx)
                kn = known_findings(i)
                if any(x not in kn for x in ctx.findings()):
                    return file, line, fn, what, "caught", i
            except AnalysisBroken as e:
                broken.append(i)
            except TimeoutError:
                broken.append(i + "(time)")
            except Exception as e:
                broken.append(i + "(" + type(e).__name__ + ")")
            finally:
                signal.alarm(0)
        return file, line, fn, what, "broken" if broken else "missed" if ids else "uncovered", ",".join(broken or ids)
    finally:
        shutil.rmtree(d)


def main():
    outf, files = sys.argv[1], sys.argv[2:]
    cf_ = "/tmp/am/cov.json"
    if not os.path.exists(cf_):
        json.dump(coverage(), open(cf_, "w"))
    cov = json.load(open(cf_))
    jobs = []
    for file in files:
        src = open("/repo/libensemble/" + file).read()
        mod = "libensemble." + file[:-3].replace("/", ".")
        for line, fn, what, s in mutants(src):
            if os.environ.get("ONLY") and os.environ["ONLY"] not in fn:
                continue
            ids = [i for i in sorted(cov) if i not in SLOW and (f"{mod}:{fn}" in cov[i][0] or any(("libensemble/" + file) in w and f"({fn})" in w for w in cov[i][1]))]
            jobs.append((file, line, fn, what, s, ids))
    print(len(jobs), "mutants", flush=True)
    with cf.ProcessPoolExecutor(int(os.environ.get("J", 6))) as ex, open(outf, "w") as f:
        for r in ex.map(one, jobs):
            f.write(json.dumps(r) + "\n")
            f.flush()


if __name__ == "__main__":
    main()
