"""mutate.py OUT.jsonl FRACTION FILE=CHECK,CHECK... : mutation analysis of /repo in scratch copies (development tool, no check uses it)

Every mutant that keeps the stable tests passing is run against the checks; OUT gets one line per mutant.
"""
import ast
import hashlib
import json
import os
import shutil
import subprocess
import sys
from multiprocessing import Pool, current_process

BASE = "/tmp/mut"
FAILING = ["skmine/datasets/fimi.py::skmine.datasets.fimi.fetch_mushroom", "skmine/datasets/tests/test_fimi.py::test_fetch_any_not_fetched", "skmine/datasets/tests/test_fimi.py::test_fetch_any_not_fetched_gz",
           "skmine/datasets/tests/test_fimi.py::test_url_cgi", "skmine/datasets/tests/test_fimi.py::test_url_fimi", "skmine/itemsets/lcm.py::skmine.itemsets.lcm.LCM",
           "skmine/periodic/run_mine.py::skmine.periodic.run_mine.filter_candidates_cover", "skmine/periodic/tests/test_cycles.py::test_get_residuals_health_app",
           "skmine/periodic/tests/test_cycles.py::test_reconstruct_order", "skmine/periodic/tests/test_cycles.py::test_transform_chronological_order"]

CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.BitAnd: "|", ast.BitOr: "&", ast.FloorDiv: "/", ast.Mod: "*"}


def mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def seg(n):
        s, e = span(n)
        return b[s:e].decode()
    out = []

    def add(n, new, kind):
        s, e = span(n)
        if b[s:e].decode() != new:
            out.append((s, e, new, kind, n.lineno))
    parents = {}
    for p in ast.walk(tree):
        for c in ast.iter_child_nodes(p):
            parents[c] = p
    for n in ast.walk(tree):
        up = n
        skip = False
        infunc = False
        while up in parents:
            up = parents[up]
            if isinstance(up, (ast.Raise, ast.JoinedStr, ast.Assert)):
                skip = True
            if isinstance(up, ast.Call) and isinstance(up.func, ast.Name) and up.func.id in ("print", "warn"):
                skip = True
            if isinstance(up, (ast.FunctionDef,)):
                infunc = True
        if skip or not infunc:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = CMP.get(type(n.ops[0]))
            if o:
                add(n, f"{seg(n.left)} {o} {seg(n.comparators[0])}", "cmp")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            add(n, f"({seg(n.left)} {BIN[type(n.op)]} {seg(n.right)})", "bin")
        elif isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + o.join(f"({seg(v)})" for v in n.values) + ")", "bool")
            for v in n.values:
                add(n, f"({seg(v)})", "boolpart")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            add(n, f"({seg(n.operand)})", "unary")
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            add(n, str(n.value + 1), "const")
            if n.value > 0:
                add(n, str(n.value - 1), "const")
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            add(n, str(not n.value), "const")
        elif isinstance(n, ast.Constant) and type(n.value) is float:
            add(n, str(n.value * 2 + 1), "const")
        elif isinstance(n, (ast.If, ast.IfExp)):
            add(n.test, f"(not ({seg(n.test)}))", "ifnot")
            add(n.test, "True", "iftrue")
            add(n.test, "False", "iffalse")
        elif isinstance(n, ast.While):
            pass
        elif isinstance(n, (ast.AugAssign, ast.Delete)) or isinstance(n, ast.Expr) and isinstance(n.value, (ast.Call, ast.Await)):
            if not (isinstance(n, ast.Expr) and isinstance(n.value.func, ast.Name) and n.value.func.id == "print"):
                add(n, "pass", "delete")
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            add(n, "pass", "delete")
        elif isinstance(n, (ast.Continue, ast.Break)):
            add(n, "pass", "delete")
        elif isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Name) and f.id in ("min", "max", "any", "all", "sorted", "floor", "ceil", "set", "list"):
                new = {"min": "max", "max": "min", "any": "all", "all": "any", "sorted": "list", "floor": "ceil", "ceil": "floor"}.get(f.id)
                if new and not (f.id == "sorted" and n.keywords):
                    add(f, new, "func")
            if isinstance(f, ast.Attribute) and f.attr in ("copy", "deepcopy") and not n.args:
                add(n, seg(f.value), "nocopy")
            for k in n.keywords:
                if k.arg:
                    kws = [x for x in n.keywords if x is not k]
                    parts = [seg(a) for a in n.args] + [(f"{x.arg}={seg(x.value)}" if x.arg else f"**{seg(x.value)}") for x in kws]
                    add(n, f"{seg(f)}({', '.join(parts)})", "kwdrop")
            if len(n.args) == 2:
                add(n, f"{seg(f)}({seg(n.args[1])}, {seg(n.args[0])}{''.join(', ' + (x.arg + '=' if x.arg else '**') + seg(x.value) for x in n.keywords)})", "swap")
        elif isinstance(n, ast.comprehension) and n.ifs:
            for i in n.ifs:
                add(i, "True", "compif")
        elif isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, (ast.Tuple,)) and len(n.value.elts) == 2:
            add(n.value, f"{seg(n.value.elts[1])}, {seg(n.value.elts[0])}", "retswap")
        elif isinstance(n, ast.Slice):
            if n.lower is not None or n.upper is not None:
                add(n, ":", "slice")
    seen = set()
    for s, e, new, kind, line in out:
        m = (b[:s] + new.encode() + b[e:]).decode()
        if m in seen:
            continue
        seen.add(m)
        try:
            ast.parse(m)
        except SyntaxError:
            continue
        yield m, kind, line, b[s:e].decode()[:100], new[:100]


def work(job):
    f, src, kind, line, old, new, checks, orig = job
    slot = os.path.join(BASE, "s" + current_process().name.split("-")[-1])
    if not os.path.exists(slot):
        shutil.copytree("/repo", slot, ignore=shutil.ignore_patterns(".git", "docs", "bench"))
    path = os.path.join(slot, f)
    open(path, "w").write(src)
    rec = dict(file=f, line=line, kind=kind, old=old, new=new)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", LC_ALL="C.UTF-8", TZ="UTC", SCIKIT_MINE_DATA=os.path.join(slot, "dh"), OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               VP_DEV_REPO=slot, VP_DEV_OUT=os.path.join(slot, "out"), VP_DEV_FIRST="1", VP_DEV_SAMPLE=os.environ.get("SAMPLE", "7"), VP_DEV_TIMEOUT="20")
    env.pop("VP_MC_READY", None)
    try:
        try:
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "--timeout=60", "--doctest-modules", "skmine"] + [a for d in FAILING for a in ("--deselect", d)],
                               cwd=slot, env=env, capture_output=True, text=True, timeout=150)
            ok = r.returncode == 0
        except subprocess.TimeoutExpired:
            ok = False
        if not ok:
            rec["tests"] = "killed"
            return rec
        rec["tests"] = "passed"
        rec["caught"] = None
        for c in checks:
            try:
                r = subprocess.run(["python3", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "run.py"), c, "--tier", "quick", "--workers", "1", "--budget", "900"],
                                   env=env, capture_output=True, text=True, timeout=1500)
                rc, o = r.returncode, r.stdout
            except subprocess.TimeoutExpired:
                rc, o = "timeout", ""
            if rc == 1 and "VIOLATION" in o:
                rec["caught"] = c
                break
            if rc != 0:
                rec.setdefault("odd", []).append([c, rc])
        return rec
    finally:
        open(path, "w").write(orig)


def main():
    out, frac = sys.argv[1], float(sys.argv[2])
    jobs = []
    for a in sys.argv[3:]:
        f, checks = a.split("=")
        lines = None
        if ":" in f:
            f, lines = f.split(":")
            lines = tuple(map(int, lines.split("-")))
        orig = open(os.path.join("/repo", f)).read()
        for m, kind, line, old, new in mutants(orig):
            if lines and not lines[0] <= line <= lines[1]:
                continue
            h = int(hashlib.md5(f"{f}{line}{kind}{old}{new}".encode()).hexdigest()[:8], 16) / 2 ** 32
            if h < frac:
                jobs.append((f, m, kind, line, old, new, checks.split(","), orig))
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["kind"], d["old"], d["new"]))
    jobs = [j for j in jobs if (j[0], j[3], j[2], j[4], j[5]) not in done]
    print(len(jobs), "mutants", flush=True)
    os.makedirs(BASE, exist_ok=True)
    with Pool(int(os.environ.get("SLOTS", 8))) as p, open(out, "a") as fo:
        for rec in p.imap_unordered(work, jobs):
            fo.write(json.dumps(rec) + "\n")
            fo.flush()
    shutil.rmtree(BASE)


if __name__ == "__main__":
    main()
