#!/usr/bin/env python3
"""automut.py OUT [FILE...]: first-order mutants of the core modules; those that pass the repository's tests go through the checks.
OUT/survivors.txt lists the mutants that pass the tests and that no check reports (equivalent ones among them)."""
import ast, copy, glob, json, os, shutil, subprocess, sys, tempfile, threading, queue, time, difflib
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo"
CHECKS = {  # cheap and likely ones first
    "result.py": "C01 C02 C03 C17",
    "reflect.py": "C24 C05 C07",
    "data_types.py": "C08 C12",
    "file.py": "C23 C03 C13",
    "opc.py": "C13",
    "http.py": "C19 C16",
    "config.py": "C20 C03",
    "api.py": "C23 C20 C03",
    "__main__.py": "C03",
}
CMP = {ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.Mod: [ast.Mult], ast.BitOr: [ast.BitAnd], ast.BitAnd: [ast.BitOr], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Mult]}


def muts(node):
    """replacements of a node (None: delete the statement)"""
    if isinstance(node, ast.Compare):
        for i, o in enumerate(node.ops):
            for n in CMP.get(type(o), []):
                c = copy.deepcopy(node)
                c.ops[i] = n()
                yield c
    if isinstance(node, ast.BoolOp):
        c = copy.deepcopy(node)
        c.op = ast.And() if isinstance(node.op, ast.Or) else ast.Or()
        yield c
        for i in range(len(node.values)):
            v = [x for j, x in enumerate(node.values) if j != i]
            yield v[0] if len(v) == 1 else ast.BoolOp(node.op, v)
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
        yield node.operand
    if isinstance(node, ast.BinOp):
        for n in BIN.get(type(node.op), []):
            yield ast.BinOp(node.left, n(), node.right)
    if isinstance(node, (ast.If, ast.While, ast.IfExp)):
        for t in (ast.Constant(True), ast.Constant(False)):
            c = copy.deepcopy(node)
            c.test = t
            yield c
        c = copy.deepcopy(node)
        c.test = ast.UnaryOp(ast.Not(), node.test)
        yield c
    if isinstance(node, ast.Constant):
        v = node.value
        if isinstance(v, bool):
            yield ast.Constant(not v)
        elif isinstance(v, (int, float)):
            yield ast.Constant(v + 1)
            yield ast.Constant(v - 1) if v > 0 else ast.Constant(5)
        elif isinstance(v, str) and v:
            if " " not in v:
                yield ast.Constant(v + "x" if len(v) > 1 else "")
        elif v is None:
            yield ast.Constant(True)
    if isinstance(node, ast.Call) and node.args and len(node.args) > 1:
        a = node.args
        if len(a) == 2:
            yield ast.Call(node.func, [a[1], a[0]], node.keywords)
    if isinstance(node, ast.Call) and node.keywords:
        for i in range(len(node.keywords)):
            yield ast.Call(node.func, node.args, [k for j, k in enumerate(node.keywords) if j != i])
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and not node.args and not node.keywords:
        yield node.func.value
    if isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice):
        yield node.value
    if isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Continue, ast.Break, ast.With, ast.For)) and not (isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
        yield None
    if isinstance(node, ast.Return) and node.value is not None and not isinstance(node.value, ast.Constant):
        yield ast.Return(ast.Constant(None))
    if isinstance(node, ast.Break):
        yield ast.Continue()
    if isinstance(node, ast.Continue):
        yield ast.Break()
    if isinstance(node, ast.Try) and node.handlers:
        for i, h in enumerate(node.handlers):
            c = copy.deepcopy(node)
            del c.handlers[i]
            if c.handlers or c.finalbody:
                yield c
            if isinstance(h.type, ast.Tuple):
                for j in range(len(h.type.elts)):
                    c = copy.deepcopy(node)
                    del c.handlers[i].type.elts[j]
                    yield c
    if isinstance(node, ast.Dict) and len(node.keys) > 1 or isinstance(node, (ast.Set, ast.List)) and len(node.elts) > 1:
        n = len(node.keys) if isinstance(node, ast.Dict) else len(node.elts)
        for i in {0, n // 2, n - 1}:
            c = copy.deepcopy(node)
            if isinstance(c, ast.Dict):
                del c.keys[i], c.values[i]
            else:
                del c.elts[i]
            yield c


def mutants(src):
    tree = ast.parse(src)
    base = ast.unparse(tree)
    seen = {base}
    slots = []

    def walk(n):
        for f, v in ast.iter_fields(n):
            if f in ("annotation", "returns", "decorator_list") and f != "decorator_list":
                continue
            if isinstance(v, list):
                for i, x in enumerate(v):
                    if isinstance(x, ast.AST):
                        slots.append((n, f, i, x))
                        walk(x)
            elif isinstance(v, ast.AST):
                slots.append((n, f, None, v))
                walk(v)
    walk(tree)
    for n, f, i, x in slots:
        if isinstance(n, ast.JoinedStr) and isinstance(x, ast.Constant):
            continue
        for r in muts(x):
            if r is None:
                r = ast.Pass()
            if i is None:
                setattr(n, f, r)
            else:
                getattr(n, f)[i] = r
            try:
                t = ast.unparse(ast.fix_missing_locations(tree))
                ast.parse(t)
            except Exception:
                t = base
            if i is None:
                setattr(n, f, x)
            else:
                getattr(n, f)[i] = x
            if t not in seen:
                seen.add(t)
                yield getattr(x, "lineno", 0), t


def main(out, files):
    os.makedirs(out, exist_ok=True)
    todo = queue.Queue()
    done = {}
    log = out + "/log.jsonl"
    if os.path.exists(log):
        for l in open(log):
            r = json.loads(l)
            done[r["id"]] = r
    for f in files:
        src = open(f"{SRC}/aas_test_engines/{f}").read()
        base = ast.unparse(ast.parse(src))
        for k, (line, t) in enumerate(mutants(src)):
            d = "\n".join(l for l in difflib.unified_diff(base.splitlines(), t.splitlines(), n=0, lineterm="") if not l.startswith(("---", "+++", "@@")))
            i = f"{f}:{line}:{k}"
            if i not in done:
                todo.put((i, f, t, d))
    print(todo.qsize(), "mutants", flush=True)
    lock = threading.Lock()
    stop = time.time() + float(os.environ.get("AUTOMUT_SECONDS", "1e9"))

    def worker():
        w = tempfile.mkdtemp(prefix="automut")
        subprocess.check_call(["rsync", "-a", "--exclude", ".git", SRC + "/", w + "/r/"]) if shutil.which("rsync") else shutil.copytree(SRC, w + "/r", ignore=shutil.ignore_patterns(".git", "__pycache__"))
        os.makedirs(w + "/v")
        for x in ("absint", "checks", "spec"):
            if os.path.isdir(f"{ROOT}/{x}"):
                shutil.copytree(f"{ROOT}/{x}", f"{w}/v/{x}", ignore=shutil.ignore_patterns("__pycache__"))
        for x in ("run.py", "known_findings.json"):
            shutil.copy(f"{ROOT}/{x}", w + "/v")
        env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
        env.update(PATH="/opt/venv/bin:" + os.environ["PATH"], PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONUTF8="1")
        try:
            while time.time() < stop:
                try:
                    i, f, t, d = todo.get_nowait()
                except queue.Empty:
                    return
                p = f"{w}/r/aas_test_engines/{f}"
                keep = open(p).read()
                open(p, "w").write(t)
                res = {"id": i, "file": f, "diff": d}
                try:
                    try:
                        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=60", "--deselect", "test/v3_0/test_model.py::TestSubmodelElement::test_iterate", "test"], cwd=w + "/r", env=env, capture_output=True, timeout=120).returncode
                        if r == 0:
                            r = subprocess.run(["/opt/venv/bin/python", "bin/check_readme.py"], cwd=w + "/r", env=dict(env, PYTHONPATH=w + "/r"), capture_output=True, timeout=120).returncode
                    except subprocess.TimeoutExpired:
                        r = 1
                    if r:
                        res["result"] = "tests"
                    else:
                        res["result"] = "SURVIVES"
                        res["other"] = []
                        for pid in CHECKS[f].split():
                            try:
                                c = subprocess.run([sys.executable, "run.py", pid], cwd=w + "/v", env=dict(os.environ, VERIF_REPO=w + "/r", VERIF_JOBS="2"), capture_output=True, text=True, timeout=900)
                            except subprocess.TimeoutExpired:
                                res["other"].append((pid, "timeout"))
                                continue
                            if c.returncode == 1:
                                res["result"] = pid
                                break
                            if c.returncode or " 0 undecided" not in c.stdout:
                                res["other"].append((pid, c.returncode, c.stdout[-200:]))
                finally:
                    open(p, "w").write(keep)
                with lock:
                    open(log, "a").write(json.dumps(res) + "\n")
                    done[i] = res
        finally:
            shutil.rmtree(w)
    ts = [threading.Thread(target=worker) for _ in range(int(os.environ.get("AUTOMUT_JOBS", "6")))]
    [t.start() for t in ts]
    [t.join() for t in ts]
    from collections import Counter
    print(Counter(r["result"] for r in done.values()))
    with open(out + "/survivors.txt", "w") as o:
        for r in sorted(done.values(), key=lambda r: (r["file"], int(r["id"].split(":")[1]))):
            if r["result"] == "SURVIVES":
                o.write(f"## {r['id']} {r['other'] or ''}\n{r['diff']}\n")


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2:] or list(CHECKS))
