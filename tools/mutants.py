"""Mutation testing of the checks: which small changes of the code that pass its tests does no check see?

mutants.py survive OUT.json [FILE...]      mutants that pass the tests
mutants.py scan IN.json OUT.json           a fast sieve: some cases of each relevant check (scan.py)
mutants.py check IN.json OUT.json [START [STEP]]   which check catches each of them
Works in scratch copies; the checks are pointed to them with VERIF_REPO. Not part of any check.
"""
import ast
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

BASE = os.environ.get("MUT_REPO", "/repo")
VERIF = os.environ.get("MUT_VERIF") or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ["grammar/sql.py", "grammar/lexer.py", "grammar/tokeniser.py", "file_handler.py", "sql_formatter.py",
         "sql_validator.py", "main.py"]  # fmt: skip
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in",
       ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}  # fmt: skip
SKIP = ("__repr__", "__eq__", "__hash__")


def mutants(source):
    lines = source.splitlines(keepends=True)
    starts = [0]
    for line in lines:
        starts.append(starts[-1] + len(line.encode()))
    raw = source.encode()

    def span(node):
        return starts[node.lineno - 1] + node.col_offset, starts[node.end_lineno - 1] + node.end_col_offset

    def text(node):
        a, b = span(node)
        return raw[a:b].decode()

    out = []

    def put(node, new, where, to=None):
        a, b = span(node)
        if to is not None:
            b = span(to)[1]
        if raw[a:b].decode() != new:
            out.append({"a": a, "b": b, "new": new, "old": raw[a:b].decode(), "line": node.lineno, "in": where})

    def visit(node, where):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            if node.name in SKIP:
                return
            where = (where + "." if where else "") + node.name
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            new = CMP.get(type(node.ops[0]))
            if new:
                put(node, "{} {} {}".format(text(node.left), new, text(node.comparators[0])), where)
        if isinstance(node, ast.BoolOp):
            joint = " and " if isinstance(node.op, ast.And) else " or "
            parts = ["({})".format(text(v)) for v in node.values]
            put(node, "(" + (" or " if joint == " and " else " and ").join(parts) + ")", where)
            for i in range(len(parts)):
                put(node, "(" + joint.join(parts[:i] + parts[i + 1 :]) + ")", where)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            put(node, "({})".format(text(node.operand)), where)
        if isinstance(node, (ast.If, ast.IfExp)):
            put(node.test, "True", where)
            put(node.test, "False", where)
        if isinstance(node, ast.While):
            put(node.test, "False", where)
        if isinstance(node, ast.For):
            put(node.iter, "list({})[:1]".format(text(node.iter)), where)
            put(node.iter, "list({})[1:]".format(text(node.iter)), where)
        if isinstance(node, ast.comprehension):
            for c in node.ifs:
                put(c, "True", where)
        if isinstance(node, ast.Constant):
            if node.value is True or node.value is False:
                put(node, str(not node.value), where)
            elif isinstance(node.value, int):
                put(node, str(node.value + 1), where)
                put(node, "({})".format(node.value - 1), where)
            elif isinstance(node.value, str) and node.value and not text(node).startswith('"""'):
                put(node, repr(""), where)
                if node.value.strip() and len(node.value) > 1:
                    put(node, repr(node.value[:-1]), where)
        if isinstance(node, (ast.Tuple, ast.List)) and len(node.elts) > 1 and isinstance(node.ctx, ast.Load):
            for e in node.elts:
                rest = [text(x) for x in node.elts if x is not e]
                put(node, ("({},)" if isinstance(node, ast.Tuple) else "[{}]").format(", ".join(rest)), where)
        if isinstance(node, ast.Call):
            f = text(node.func)
            if f == "lower" or f == "transform" and len(node.args) == 1:
                put(node, text(node.args[0]), where)
            if isinstance(node.func, ast.Attribute) and node.func.attr in ("lower", "upper", "strip", "replace", "lstrip"):
                put(node, text(node.func.value), where)
            for k in node.keywords:
                if k.arg:
                    rest = [text(x) for x in node.args] + [
                        ("{}={}".format(x.arg, text(x.value)) if x.arg else "**" + text(x.value)) for x in node.keywords if x is not k
                    ]
                    put(node, "{}({})".format(f, ", ".join(rest)), where)
        if isinstance(node, ast.BinOp):
            if isinstance(node.op, ast.Add):
                put(node, text(node.left), where)
                put(node, text(node.right), where)
            if isinstance(node.op, ast.BitOr):
                put(node, text(node.left), where)
                put(node, text(node.right), where)
        if isinstance(node, ast.AugAssign):
            put(node, "{} = {}".format(text(node.target), text(node.value)), where)
        if isinstance(node, (ast.Expr, ast.AugAssign, ast.Assert, ast.Raise, ast.Continue, ast.Break)):
            if not (isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
                put(node, "pass", where)
        if isinstance(node, ast.Assign) and where.count("."):
            put(node, "{} = None".format(", ".join(text(t) for t in node.targets)), where)
        if isinstance(node, ast.Return) and node.value is not None:
            put(node, "return None", where)
        for child in ast.iter_child_nodes(node):
            visit(child, where)

    visit(ast.parse(source), "")
    seen, unique = set(), []
    for m in out:
        key = (m["a"], m["b"], m["new"])
        new = raw[: m["a"]] + m["new"].encode() + raw[m["b"] :]
        if key in seen:
            continue
        seen.add(key)
        try:
            ast.parse(new)
        except SyntaxError:
            continue
        unique.append(m)
    return unique


def apply(repo, m):
    path = os.path.join(repo, "sqlvalidator", m["file"])
    with open(os.path.join(os.path.join(BASE, "sqlvalidator"), m["file"]), "rb") as f:
        raw = f.read()
    with open(path, "wb") as f:
        f.write(raw[: m["a"]] + m["new"].encode() + raw[m["b"] :])
    return path


def restore(m, path):
    shutil.copyfile(os.path.join(os.path.join(BASE, "sqlvalidator"), m["file"]), path)


def survive(out, files):
    todo = []
    for name in files:
        with open(os.path.join(os.path.join(BASE, "sqlvalidator"), name)) as f:
            for m in mutants(f.read()):
                m["file"] = name
                todo.append(m)
    print(len(todo), "mutants", flush=True)
    workers = int(os.environ.get("MUT_WORKERS", "6"))
    survivors = []

    def work(w):
        repo = "/tmp/mut/s%d" % w
        shutil.rmtree(repo, ignore_errors=True)
        shutil.copytree(BASE, repo, ignore=shutil.ignore_patterns(".git", "__pycache__"))
        env = {**os.environ, "PYTHONPATH": repo, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0"}
        for m in todo[w::workers]:
            path = apply(repo, m)
            cmd = ["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=20", "tests"]
            try:
                ok = subprocess.run(cmd, cwd=repo, env=env, capture_output=True, timeout=120).returncode == 0
            except subprocess.TimeoutExpired:
                ok = False
            if ok:
                survivors.append(m)
            restore(m, path)
        shutil.rmtree(repo, ignore_errors=True)

    with ThreadPoolExecutor(workers) as ex:
        list(ex.map(work, range(workers)))
    survivors.sort(key=lambda m: (m["file"], m["a"], m["b"]))
    with open(out, "w") as f:
        json.dump(survivors, f, indent=0)
    print(len(survivors), "pass the tests")


FORMAT = "C05 C01 C03 C02 C04 C06 C07 C09 C28 C29 C08".split()
VALIDATE = "C11 C10 C14 C16 C12 C13 C15 C18 C17 C28 C29 C09".split()
FILE = "C27 C21 C25 C26 C24 C20 C22 C23".split()


def checks_for(m):
    name = m["in"].rsplit(".", 1)[-1]
    if m["file"] in ("file_handler.py", "main.py"):
        return FILE
    if m["file"] == "grammar/sql.py":
        if name in ("__str__", "transform", "break_lines"):
            return FORMAT + ["C17"]
        if name == "__init__":
            return FORMAT[:5] + VALIDATE
        return VALIDATE
    return FORMAT + VALIDATE[:-1] + ["C21"]


def check(src, out, start, step):
    with open(src) as f:
        todo = json.load(f)[start::step]
    repo = "/tmp/mut/c%d" % start
    verif = "/tmp/mut/v%d" % start
    for d in (repo, verif):
        shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(BASE, repo, ignore=shutil.ignore_patterns(".git", "__pycache__"))
    os.makedirs(verif)
    for d in ("lib", "corpus"):
        shutil.copytree(os.path.join(VERIF, d), os.path.join(verif, d))
    shutil.copy(os.path.join(VERIF, "check.py"), verif)
    env = {**os.environ, "VERIF_REPO": repo, "VERIF_SEED": os.environ.get("VERIF_SEED", "1")}
    results = []
    for m in todo:
        path = apply(repo, m)
        m["caught"] = None
        for c in checks_for(m):
            try:
                r = subprocess.run(["python3-vt", "check.py", c], cwd=verif, env=env, capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                m.setdefault("odd", []).append(c + " timeout")
                continue
            if r.returncode == 1 and "VIOLATION property=" in r.stdout:
                m["caught"] = c
                break
            if r.returncode != 0:
                m.setdefault("odd", []).append("{} rc={} {}".format(c, r.returncode, r.stderr[-300:]))
        restore(m, path)
        results.append(m)
        print("{}:{} {} [{}] {!r} -> {!r} {}".format(
            m["file"], m["line"], m["in"], m["caught"] or "MISSED", m["old"][:70], m["new"][:70], m.get("odd", "")), flush=True)
        with open(out, "w") as f:
            json.dump(results, f, indent=0)
    for d in (repo, verif):
        shutil.rmtree(d, ignore_errors=True)


def scan(src, out):
    with open(src) as f:
        todo = json.load(f)
    workers = int(os.environ.get("MUT_WORKERS", "6"))
    results = []

    def work(w):
        repo = "/tmp/mut/q%d" % w
        shutil.rmtree(repo, ignore_errors=True)
        shutil.copytree(BASE, repo, ignore=shutil.ignore_patterns(".git", "__pycache__"))
        env = {**os.environ, "VERIF_REPO": repo, "MUT_VERIF": VERIF, "PYTHONHASHSEED": "0"}
        for m in todo[w::workers]:
            path = apply(repo, m)
            ids = [c for c in checks_for(m) if c != "C08"]
            cmd = ["python3-vt", os.path.join(VERIF, "tools", "scan.py"), os.environ.get("SCAN_N", "400")] + ids
            try:
                r = subprocess.run(cmd, env=env, capture_output=True, text=True, timeout=300)
                m["caught"] = r.stdout.strip() or (r.returncode and "ERROR " + r.stderr[-200:]) or None
            except subprocess.TimeoutExpired:
                m["caught"] = "TIMEOUT"
            restore(m, path)
            results.append(m)
            print(len(results), m["file"], m["line"], m["in"], m["caught"], repr(m["old"][:60]), repr(m["new"][:60]), flush=True)
        shutil.rmtree(repo, ignore_errors=True)

    with ThreadPoolExecutor(workers) as ex:
        list(ex.map(work, range(workers)))
    missed = sorted((m for m in results if not m["caught"]), key=lambda m: (m["file"], m["a"], m["b"]))
    with open(out, "w") as f:
        json.dump(missed, f, indent=0)
    print(len(missed), "of", len(results), "not caught")


if __name__ == "__main__":
    if sys.argv[1] == "scan":
        scan(sys.argv[2], sys.argv[3])
    elif sys.argv[1] == "survive":
        survive(sys.argv[2], sys.argv[3:] or FILES)
    else:
        check(sys.argv[2], sys.argv[3], int(sys.argv[4]) if len(sys.argv) > 4 else 0, int(sys.argv[5]) if len(sys.argv) > 5 else 1)
