"""
Mutation campaign: does a small change that the unit tests accept get caught?

    python3 tools/mutate.py OUT.jsonl [--files a.py,b.py] [--limit N] [--jobs 8]
                            [--seed N] [--skip DONE.jsonl]

Works on scratch copies of /repo under /tmp/hpymut.*, one per job, removed at
the end.  For each mutant: does the file still compile, do the unit tests pass,
and which check reports it first.  Not part of any registered check.
"""

import argparse
import ast
import copy
import json
import multiprocessing as mp
import os
import random
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
CHECKS = {
    "bond.py": "C11 C29 C28 C14 C31",
    "hilbertspace.py": "C01 C29 C28 C32 C31",
    "indextable.py": "C10 C28 C29 C33",
    "lanczos.py": "C17 C19 C31",
    "averages.py": "C24 C28",
    "line2d.py": "C22 C29 C31",
    "polygon.py": "C23 C28 C31",
    "rotation3d.py": "C21 C28 C31",
    "lattice/lattice.py": "C12 C13 C14 C16 C28 C30 C31 C33",
    "lattice/_lattice_database.py": "C15",
    "lattice/__init__.py": "C15 C28",
    "GreenFunction/_GFSolver.py": "C18 C19 C28 C31",
    "quantumoperator/constant.py": "C08 C06 C07",
    "quantumoperator/factory.py": "C08 C31",
    "quantumoperator/matrixrepr.py": "C02 C03 C31",
    "quantumoperator/particlesystem.py": "C04 C05 C02 C03 C09 C10 C29 C28 C30 C31 C33",
    "quantumoperator/quantumstate.py": "C09 C10 C29 C28 C31 C33",
    "quantumoperator/spinsystem.py": "C06 C07 C09 C10 C29 C28 C30 C31 C33",
    "tools/PandC.py": "C25",
    "tools/TotalSpin.py": "C24",
    "tools/colorprint.py": "C26 C31",
    "tools/runtimeenv.py": "C27 C31",
    "tools/BrillouinZone.py": "C30",
    "tools/Draw2DLattice.py": "C30",
}
# about 25 s, and only about the Lanczos module
SLOW = "HamiltonianPy/tests/unit/test_lanczos.py::test_MultiKrylov"
SHOW = bool(os.environ.get("MUTATE_SHOW"))
SWAP_CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt],
            ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
            ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot],
            ast.IsNot: [ast.Is]}
SWAP_BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div, ast.Add],
            ast.Div: [ast.Mult], ast.FloorDiv: [ast.Div], ast.Mod: [ast.FloorDiv],
            ast.LShift: [ast.RShift], ast.BitAnd: [ast.BitOr],
            ast.BitXor: [ast.BitOr], ast.BitOr: [ast.BitAnd],
            ast.Pow: [ast.Mult]}


def mutations(tree):
    """Yield (description, apply) where apply() edits the tree in place."""
    docs = set()
    for node in ast.walk(tree):
        if isinstance(node, (ast.Module, ast.FunctionDef, ast.ClassDef)):
            if node.body and isinstance(node.body[0], ast.Expr) and isinstance(
                    node.body[0].value, ast.Constant):
                docs.add(id(node.body[0].value))
                docs.add(id(node.body[0]))
    skip = set()
    for node in ast.walk(tree):
        if isinstance(node, ast.If) and isinstance(node.test, ast.Compare) \
                and isinstance(node.test.left, ast.Name) \
                and node.test.left.id == "__name__":
            for sub in ast.walk(node):
                skip.add(id(sub))
        if isinstance(node, ast.Assign) and any(
                isinstance(t, ast.Name) and t.id == "__all__"
                for t in node.targets):
            for sub in ast.walk(node):
                skip.add(id(sub))
        if isinstance(node, ast.Raise):
            for sub in ast.walk(node.exc) if node.exc else ():
                skip.add(id(sub))
        if isinstance(node, ast.Assert) and node.msg is not None:
            skip.add(id(node.msg))
        if isinstance(node, ast.FunctionDef) and \
                node.name.lower().startswith("show") and not SHOW:
            for sub in ast.walk(node):
                skip.add(id(sub))
    res = []
    for node in ast.walk(tree):
        if id(node) in skip:
            continue
        line = getattr(node, "lineno", 0)

        def add(what, fn, line=line):
            res.append((line, what, fn))
        if isinstance(node, ast.Compare):
            for k, op in enumerate(node.ops):
                for new in SWAP_CMP.get(type(op), []):
                    add("cmp {0}->{1}".format(type(op).__name__, new.__name__),
                        lambda node=node, k=k, new=new:
                        node.ops.__setitem__(k, new()))
        if isinstance(node, (ast.BinOp, ast.AugAssign)):
            for new in SWAP_BIN.get(type(node.op), []):
                add("op {0}->{1}".format(type(node.op).__name__, new.__name__),
                    lambda node=node, new=new: setattr(node, "op", new()))
        if isinstance(node, ast.BinOp) and isinstance(
                node.op, (ast.Sub, ast.Div, ast.MatMult)):
            def flip(node=node):
                node.left, node.right = node.right, node.left
            add("swap operands", flip)
        if isinstance(node, ast.BoolOp):
            add("boolop", lambda node=node: setattr(
                node, "op", ast.Or() if isinstance(node.op, ast.And)
                else ast.And()))
            for k in range(len(node.values)):
                add("drop boolop value %d" % k,
                    lambda node=node, k=k: node.values.pop(k)
                    if len(node.values) > 1 else None)
        if isinstance(node, ast.UnaryOp) and isinstance(
                node.op, (ast.Not, ast.USub)):
            def plus(node=node):
                node.op = ast.UAdd() if isinstance(node.op, ast.USub) else \
                    ast.Not()
                if isinstance(node.op, ast.Not):
                    node.operand = ast.UnaryOp(ast.Not(), node.operand)
            add("drop unary", plus)
        if isinstance(node, ast.Constant) and id(node) not in docs:
            v = node.value
            if isinstance(v, bool):
                add("const {0}".format(not v),
                    lambda node=node, v=v: setattr(node, "value", not v))
            elif isinstance(v, int):
                for w in (v + 1, v - 1):
                    add("const {0}->{1}".format(v, w),
                        lambda node=node, w=w: setattr(node, "value", w))
            elif isinstance(v, (float, complex)):
                for w in (v * 2, v * 1.0001, v / 50):
                    add("const {0}->{1}".format(v, w),
                        lambda node=node, w=w: setattr(node, "value", w))
            elif isinstance(v, str) and len(v) < 40:
                add("str {0!r}".format(v),
                    lambda node=node, v=v: setattr(node, "value", v + "_"))
        if isinstance(node, (ast.If, ast.IfExp, ast.While)):
            for val in (True, False):
                if isinstance(node, ast.While) and val:
                    continue
                add("{0} test {1}".format(type(node).__name__, val),
                    lambda node=node, val=val: setattr(
                        node, "test", ast.Constant(val)))
        if isinstance(node, ast.Call):
            for k in range(len(node.keywords)):
                add("drop keyword {0}".format(node.keywords[k].arg),
                    lambda node=node, k=k: node.keywords.pop(k))
            if len(node.args) == 2:
                add("swap args", lambda node=node: node.args.reverse())
        if isinstance(node, (ast.FunctionDef, ast.If, ast.For, ast.While,
                             ast.With, ast.Try)):
            for field in ("body", "orelse", "finalbody"):
                block = getattr(node, field, [])
                for k, stmt in enumerate(block):
                    if id(stmt) in docs or isinstance(stmt, ast.Pass):
                        continue
                    if isinstance(stmt, (ast.Expr, ast.Assign, ast.AugAssign,
                                         ast.Assert, ast.Raise, ast.Break,
                                         ast.Continue)):
                        res.append((stmt.lineno, "drop " + type(stmt).__name__,
                                    lambda block=block, k=k:
                                    block.__setitem__(k, ast.Pass())))
        if isinstance(node, ast.Slice):
            for field in ("lower", "upper", "step"):
                if getattr(node, field) is not None:
                    add("drop slice " + field,
                        lambda node=node, field=field:
                        setattr(node, field, None))
        # replace f(x) by x and x.f() by x
        for field, value in ast.iter_fields(node):
            items = value if isinstance(value, list) else [value]
            for k, item in enumerate(items):
                if not isinstance(item, ast.Call) or isinstance(node, ast.Expr):
                    continue
                new = None
                if isinstance(item.func, ast.Attribute) and not item.args and \
                        not item.keywords:
                    new = item.func.value
                elif len(item.args) == 1 and not isinstance(
                        item.args[0], ast.Starred):
                    new = item.args[0]
                elif item.args and isinstance(item.func, ast.Attribute) and \
                        isinstance(item.func.value, ast.Name) and \
                        item.func.value.id == "np":
                    new = item.args[0]
                if new is None:
                    continue

                def unwrap(node=node, field=field, value=value, k=k, new=new):
                    if isinstance(value, list):
                        value[k] = new
                    else:
                        setattr(node, field, new)
                res.append((item.lineno, "unwrap call", unwrap))
    return res


def source_of(path):
    with open(path) as fp:
        return fp.read()


def all_mutants(files):
    out = []
    for name in files:
        text = source_of(os.path.join(REPO, "HamiltonianPy", name))
        n = len(mutations(ast.parse(text)))
        for k in range(n):
            out.append((name, k))
    return out


def run(cmd, timeout, **kw):
    proc = subprocess.Popen(cmd, stdout=subprocess.PIPE,
                            stderr=subprocess.STDOUT, text=True,
                            start_new_session=True, **kw)
    try:
        out, _ = proc.communicate(timeout=timeout)
        return proc.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(proc.pid, 9)
        proc.communicate()
        return None, "timeout"


def judge(job):
    name, k, where, core = job
    path = os.path.join(where, "HamiltonianPy", name)
    original = source_of(os.path.join(REPO, "HamiltonianPy", name))
    tree = ast.parse(original)
    line, what, fn = mutations(tree)[k]
    rec = {"file": name, "k": k, "line": line, "what": what}
    fn()
    try:
        ast.fix_missing_locations(tree)
        text = ast.unparse(tree)
        compile(text, path, "exec")
    except Exception as exc:
        return dict(rec, result="nocompile")
    if text == ast.unparse(ast.parse(original)):
        return dict(rec, result="same")
    old = ast.unparse(ast.parse(original)).split("\n")
    new = text.split("\n")
    rec["diff"] = [s for s in __import__("difflib").unified_diff(
        old, new, lineterm="", n=0)][2:8]
    env = dict(os.environ, PYTHONPATH=where, MPLBACKEND="Agg",
               PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
               MKL_NUM_THREADS="1", PYTHONHASHSEED="0",
               NUMBA_CACHE_DIR=where + "/numba", MPLCONFIGDIR=where + "/mpl",
               TMPDIR=where + "/tmp")
    pin = ["taskset", "-c", str(core)]
    try:
        with open(path, "w") as fp:
            fp.write(text)
        if name == "quantumoperator/matrixrepr.py":
            env["NUMBA_CACHE_DIR"] = where + "/numba1"
            shutil.rmtree(where + "/numba1", ignore_errors=True)
        code, out = run(pin + [
            "/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p",
            "no:cacheprovider", "--timeout=60", "-p", "randomly",
            "--randomly-seed=1", "--randomly-dont-reorganize",
            "--rootdir=" + where, "-c", "HamiltonianPy/tests/pytest.ini",
            "HamiltonianPy/tests"] + (
                [] if name in ("lanczos.py", "quantumoperator/matrixrepr.py")
                else ["--deselect", SLOW]), 200, cwd=where, env=env)
        if code != 0:
            return dict(rec, result="tests")
        del env["PYTHONPATH"]
        env["HPY_REPO"] = where
        ran = []
        for prop in CHECKS[name].split():
            if prop == "C28" and "copy" not in str(rec["diff"]):
                continue
            if not os.path.exists(os.path.join(VERIF, "run.sh")):
                continue
            code, out = run(pin + ["bash", VERIF + "/run.sh", prop], 900,
                            env=env)
            ran.append("{0}={1}".format(prop, code))
            if code == 1:
                text = [s for s in out.split("\n") if s.startswith("  [")]
                return dict(rec, result="caught", by=prop,
                            how=(text or [""])[0][:200])
            if code not in (0, 2):
                return dict(rec, result="odd", ran=ran, out=out[-500:])
        return dict(rec, result="MISSED", ran=ran)
    finally:
        with open(path, "w") as fp:
            fp.write(original)


def worker(core, base, queue, results):
    where = os.path.join(base, "w%d" % core)
    shutil.copytree(REPO, where, ignore=shutil.ignore_patterns(".git"))
    os.makedirs(where + "/tmp")
    while True:
        item = queue.get()
        if item is None:
            break
        try:
            results.put(judge(item + (where, core)))
        except Exception as exc:
            results.put({"file": item[0], "k": item[1], "result": "error",
                         "out": repr(exc)})
    results.put(None)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--files")
    ap.add_argument("--limit", type=int)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--skip", action="append", default=[])
    ap.add_argument("--only", help="records of this file that were MISSED")
    args = ap.parse_args()
    files = args.files.split(",") if args.files else list(CHECKS)
    todo = all_mutants(files)
    if args.only:
        todo = []
        for line in open(args.only):
            rec = json.loads(line)
            if rec["result"] in ("MISSED", "odd", "error"):
                todo.append((rec["file"], rec["k"]))
    done = set()
    for path in args.skip + [args.out]:
        if os.path.exists(path):
            for line in open(path):
                rec = json.loads(line)
                done.add((rec["file"], rec["k"]))
    todo = [t for t in todo if t not in done]
    random.Random(args.seed).shuffle(todo)
    if args.limit:
        todo = todo[:args.limit]
    print(len(todo), "mutants", flush=True)
    base = tempfile.mkdtemp(prefix="hpymut.", dir="/tmp")
    queue, results = mp.Queue(), mp.Queue()
    for t in todo:
        queue.put(t)
    for _ in range(args.jobs):
        queue.put(None)
    procs = [mp.Process(target=worker, args=(c, base, queue, results))
             for c in range(args.jobs)]
    for p in procs:
        p.start()
    left = args.jobs
    try:
        with open(args.out, "a") as fp:
            while left:
                rec = results.get()
                if rec is None:
                    left -= 1
                    continue
                fp.write(json.dumps(rec) + "\n")
                fp.flush()
    finally:
        for p in procs:
            p.terminate()
        shutil.rmtree(base, ignore_errors=True)


if __name__ == "__main__":
    main()
