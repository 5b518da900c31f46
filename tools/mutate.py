"""Mutation testing of the checks: python3-vt tools/mutate.py OUT.jsonl [file.py ...] [--every N] [--jobs J]

Each mutant is a copy of /repo in a scratch directory with one small edit.  Mutants the repository's own
tests reject are dropped; the others go through the checks until one reports a violation.
"""
import ast
import concurrent.futures as cf
import json
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile

HERE = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path("/repo")
SRC = "src/vblf"
ORDER = {
    "reader.py": "C02 C10 C15 C09 C14 C16 C13 C22 C01 C24",
    "writer.py": "C01 C03 C04 C11 C12 C13 C20 C21 C16 C19 C22 C24",
    "general.py": "C08 C07 C17 C18 C19 C23 C25 C04 C09 C03 C13 C15 C12 C01 C22",
    "can.py": "C05 C18 C19 C23 C25 C01", "lin.py": "C06 C19 C01", "flexray.py": "C06 C19 C01",
    "ethernet.py": "C06 C19", "tp_diag.py": "C06 C19", "constants.py": "C09 C08 C25 C05 C06 C07 C18 C03",
}
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.Eq: ["!="],
       ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["//"], ast.Mod: ["//"], ast.BitAnd: ["|"], ast.Div: ["*"]}


def mutants(text):
    tree = ast.parse(text)
    lines = text.splitlines(keepends=True)
    starts = [0]
    for ln in lines:
        starts.append(starts[-1] + len(ln))

    def pos(line, col):
        return starts[line - 1] + len(lines[line - 1].encode()[:col].decode())

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    def seg(n):
        a, b = span(n)
        return text[a:b]

    def rep(n, new):
        a, b = span(n)
        return text[:a] + new + text[b:]

    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and ast.get_docstring(n):
            doc.add(n.body[0].value)
        if isinstance(n, (ast.AnnAssign, ast.arg)) and n.annotation is not None:
            doc.update(ast.walk(n.annotation))
        if isinstance(n, ast.FunctionDef) and n.returns is not None:
            doc.update(ast.walk(n.returns))
    for n in ast.walk(tree):
        if n in doc:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for new in CMP.get(type(n.ops[0]), []):
                yield n, rep(n, f"{seg(n.left)} {new} {seg(n.comparators[0])}")
        elif isinstance(n, ast.BinOp):
            for new in BIN.get(type(n.op), []):
                yield n, rep(n, f"({seg(n.left)} {new} {seg(n.right)})")
        elif isinstance(n, ast.BoolOp):
            a, b = n.values[0], n.values[1]
            yield n, rep(n, f"({seg(a)} {'or' if isinstance(n.op, ast.And) else 'and'} {seg(b)})")
            yield n, rep(n, seg(a))
            yield n, rep(n, seg(b))
        elif isinstance(n, ast.Constant):
            if type(n.value) is int:
                yield n, rep(n, str(n.value + 1))
                if n.value:
                    yield n, rep(n, str(n.value - 1))
            elif isinstance(n.value, str) and n.value and all(c in "HBIQsxbhdi0123456789" for c in n.value):
                for i, c in enumerate(n.value):
                    for d in {"H": "h", "I": "i", "Q": "q", "B": "b"}.get(c, ""):
                        yield n, rep(n, repr(n.value[:i] + d + n.value[i + 1:]))
            elif isinstance(n.value, bool):
                yield n, rep(n, str(not n.value))
        elif isinstance(n, ast.Call):
            if 2 <= len(n.args):
                for i in range(len(n.args) - 1):
                    a, b = n.args[i], n.args[i + 1]
                    (a0, a1), (b0, b1) = span(a), span(b)
                    yield n, text[:a0] + seg(b) + text[a1:b0] + seg(a) + text[b1:]
            if len(n.args) == 1 and not n.keywords and isinstance(n.func, ast.Name) and n.func.id[0].isupper():
                yield n, rep(n, seg(n.args[0]))
        elif isinstance(n, ast.Slice):
            if n.lower is not None and n.upper is not None:
                yield n, rep(n, seg(n.lower) + ":")
                yield n, rep(n, ":" + seg(n.upper))
        elif isinstance(n, (ast.If, ast.While)):
            yield n, rep(n.test, "True") if isinstance(n, ast.If) else rep(n.test, "False")
            if isinstance(n, ast.If):
                yield n, rep(n.test, "False")
        elif isinstance(n, ast.IfExp):
            yield n, rep(n, seg(n.body))
            yield n, rep(n, seg(n.orelse))
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Raise)):
            if isinstance(n, ast.Expr) and isinstance(n.value, (ast.Yield, ast.YieldFrom, ast.Constant)):
                continue
            yield n, rep(n, "pass")
        elif isinstance(n, ast.Break):
            yield n, rep(n, "continue")
        elif isinstance(n, ast.Continue):
            yield n, rep(n, "break")


def run(cmd, cwd, env, timeout):
    try:
        return subprocess.run(cmd, cwd=cwd, env={**os.environ, **env}, capture_output=True, text=True,
                              timeout=timeout)
    except subprocess.TimeoutExpired:
        return None


def one(job):
    fn, line, what, new, props = job
    d = tempfile.mkdtemp(prefix="mut", dir="/tmp")
    try:
        for x in ("src", "tests", "pyproject.toml", "README.md"):
            if (REPO / x).is_dir():
                shutil.copytree(REPO / x, f"{d}/{x}", ignore=shutil.ignore_patterns("__pycache__"))
            elif (REPO / x).exists():
                shutil.copy(REPO / x, d)
        (pathlib.Path(d) / SRC / fn).write_text(new)
        try:
            compile(new, fn, "exec")
        except SyntaxError:
            return {"file": fn, "line": line, "what": what, "res": "syntax"}
        t = run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider"], d,
                {"PYTHONPATH": d + "/src", "PYTHONDONTWRITEBYTECODE": "1"}, 60)
        if t is None or t.returncode:
            return {"file": fn, "line": line, "what": what, "res": "tests"}
        err = []
        for p in props:
            r = run(["python3-vt", str(HERE / "run.py"), p, "--no-evidence", "--shards", "2"], str(HERE),
                    {"VERIF_REPO": d, "VERIF_SEED": "1", "VERIF_TIER": "quick"}, 900)
            if r is None or r.returncode not in (0, 1):
                err.append(p + ":" + ("timeout" if r is None else (r.stdout + r.stderr)[-300:]))
            elif r.returncode == 1:
                return {"file": fn, "line": line, "what": what, "res": p,
                        "msg": r.stdout.splitlines()[0][:200], "err": err}
        return {"file": fn, "line": line, "what": what, "res": "SURVIVED", "err": err}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    args = sys.argv[1:]
    every, jobs = 1, 4
    if "--every" in args:
        i = args.index("--every")
        every = int(args[i + 1])
        del args[i:i + 2]
    if "--jobs" in args:
        i = args.index("--jobs")
        jobs = int(args[i + 1])
        del args[i:i + 2]
    out, files = args[0], args[1:] or sorted(ORDER)
    todo = []
    for fn in files:
        text = (REPO / SRC / fn).read_text()
        old = text.splitlines()
        seen = set()
        for k, (node, new) in enumerate(mutants(text)):
            if new == text or new in seen or k % every:
                continue
            seen.add(new)
            nl = new.splitlines()
            i = next((i for i in range(min(len(old), len(nl))) if old[i] != nl[i]), 0)
            what = f"{old[i].strip()[:80]}  ->  {nl[i].strip()[:80]}"
            todo.append((fn, node.lineno, what, new, ORDER[fn].split()))
    print(len(todo), "mutants", flush=True)
    done = {}
    with open(out, "w") as f, cf.ThreadPoolExecutor(jobs) as ex:
        for r in ex.map(one, todo):
            done[r["res"]] = done.get(r["res"], 0) + 1
            f.write(json.dumps(r) + "\n")
            f.flush()
    print(done)


main()
