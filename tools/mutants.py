"""
Mutation study: which small changes of the library that pass its tests are not noticed by any check?

python3 tools/mutants.py OUT.jsonl FILE [FILE..] [--every N] [--offset K] [--scale S] [--jobs N]

Every mutant replaces one expression or statement in a scratch copy of the repository (below /tmp), where the project's
tests and then the checks related to the file are run. Not used by any registered check.
"""

import argparse
import ast
import json
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path
from queue import Queue

HOME = Path(__file__).resolve().parent.parent

RELATED = {
    "serializer.py": "C03 C02 C01 C11 C29 C10 C07 C09 C12",
    "deserializer.py": "C05 C04 C06 C01 C08 C10 C11 C29 C07 C09 C12 C31 C32",
    "serialization.py": "C02 C05 C09 C07 C01",
    "mapping.py": "C10 C28",
    "schema.py": "C15 C13 C16 C14 C10 C09 C07 C32",
    "classdef.py": "C17 C18 C28",
    "docstring.py": "C19 C20 C15",
    "inspection.py": "C30 C23 C24 C25 C28 C29 C01 C15 C03 C05 C22 C20 C27 C26 C08 C32",
    "auxiliary.py": "C27 C15 C13 C21",
    "topological.py": "C26",
    "name.py": "C21 C22",
    "core.py": "C27 C16 C13 C21",
}


def mutations(source: str) -> list[tuple[int, int, str, str]]:
    "Start and end offset, replacement, description."

    lines = source.splitlines(keepends=True)
    starts = [0]
    for line in lines:
        starts.append(starts[-1] + len(line.encode()))
    data = source.encode()

    def span(n: ast.AST) -> tuple[int, int]:
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    result: list[tuple[int, int, str, str]] = []

    def add(n: ast.AST, new: str) -> None:
        a, b = span(n)
        if data[a:b].decode() != new:
            result.append((a, b, new, f"{n.lineno}: {data[a:b].decode()[:70]!r} -> {new[:70]!r}"))

    def src(n: ast.AST) -> str:
        a, b = span(n)
        return data[a:b].decode()

    SWAP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}

    def visit(n: ast.AST) -> None:
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, (ast.Import, ast.ImportFrom, ast.Raise, ast.Assert)):
            return
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            for d in n.decorator_list:
                if "overload" in ast.unparse(d):
                    return
            if isinstance(n, ast.FunctionDef):
                for d in [*n.args.defaults, *n.args.kw_defaults]:
                    if d is not None:
                        visit(d)
            body = n.body
            if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
                body = body[1:]
            for s in body:
                visit(s)
            return
        if isinstance(n, ast.If) and ("version_info" in src(n.test) or "TYPE_CHECKING" in src(n.test)):
            for s in n.body:
                visit(s)
            return
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            if not isinstance(n, ast.While):
                add(n.test, "True")
                add(n.test, "False")
        if isinstance(n, ast.AnnAssign):
            if n.value is not None:
                visit(n.value)
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            new = SWAP.get(type(n.ops[0]))
            if new:
                add(n, f"{src(n.left)} {new} {src(n.comparators[0])}")
        if isinstance(n, ast.BoolOp):
            for i in range(len(n.values)):
                rest = [f"({src(v)})" for j, v in enumerate(n.values) if j != i]
                add(n, f"({(' and ' if isinstance(n.op, ast.And) else ' or ').join(rest)})")
            add(n, "(" + (" or " if isinstance(n.op, ast.And) else " and ").join(f"({src(v)})" for v in n.values) + ")")
        if isinstance(n, ast.UnaryOp):
            if isinstance(n.op, ast.Not):
                add(n, f"({src(n.operand)})")
            elif isinstance(n.op, ast.USub):
                add(n, f"({src(n.operand)})")
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div, ast.FloorDiv, ast.Mod, ast.Pow)) and not (
            isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)
        ):
            new = {ast.Add: "-", ast.Sub: "+", ast.Mult: "//", ast.Div: "//", ast.FloorDiv: "*", ast.Mod: "//", ast.Pow: "*"}[type(n.op)]
            add(n, f"{src(n.left)} {new} {src(n.right)}")
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                add(n, str(not n.value))
            elif isinstance(n.value, int):
                add(n, str(n.value + 1))
                add(n, str(n.value - 1))
            elif isinstance(n.value, str) and src(n)[:1] in "\"'":
                add(n, repr(n.value + "X"))
                if n.value:
                    add(n, repr(""))
        if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            add(n, "return None")
        if isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg:
                    a, b = span(k)
                    end = b
                    while data[end : end + 1] in (b" ", b"\n"):
                        end += 1
                    if data[end : end + 1] == b",":
                        end += 1
                    result.append((a, end, "", f"{n.lineno}: drop argument {data[a:b].decode()[:60]!r}"))
            if len(n.args) == 1 and not n.keywords and isinstance(n.func, ast.Name) and n.func.id not in ("len", "TypeError"):
                add(n, f"({src(n.args[0])})")
            if len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args):
                x, y = n.args[0], n.args[1]
                a, _ = span(x)
                _, b = span(y)
                result.append((a, b, f"{src(y)}, {src(x)}", f"{n.lineno}: swap arguments of {src(n)[:60]!r}"))
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for g in n.generators:
                for c in g.ifs:
                    add(c, "True")
                    add(c, "False")
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            add(n, src(n.value))
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Delete)) and not isinstance(getattr(n, "value", None), (ast.Constant, ast.Yield, ast.YieldFrom)):
            if isinstance(n, ast.Expr) or isinstance(n, ast.AugAssign) or isinstance(n, ast.Delete):
                add(n, "pass")
            elif isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
                add(n, "pass")
            elif isinstance(n.targets[0], ast.Name):
                add(n, f"{src(n.targets[0])} = None")
        if isinstance(n, (ast.Break, ast.Continue)):
            add(n, "pass")
        if isinstance(n, ast.Continue):
            add(n, "break")
        if isinstance(n, ast.Break):
            add(n, "continue")
        if isinstance(n, ast.ExceptHandler) and n.type is not None:
            if isinstance(n.type, ast.Tuple):
                for i in range(len(n.type.elts)):
                    add(n.type, "(" + ", ".join(src(e) for j, e in enumerate(n.type.elts) if j != i) + ",)")
            else:
                add(n.type, "()")
                add(n.type, "Exception")
            for s in n.body:
                visit(s)
            return
        if isinstance(n, ast.JoinedStr):
            return
        for c in ast.iter_child_nodes(n):
            visit(c)

    visit(ast.parse(source))
    unique = {}
    for m in result:
        unique.setdefault(m[:3], m)
    return list(unique.values())


def main() -> None:
    p = argparse.ArgumentParser()
    p.add_argument("out")
    p.add_argument("files", nargs="+")
    p.add_argument("--every", type=int, default=1)
    p.add_argument("--offset", type=int, default=0)
    p.add_argument("--scale", default="0.3")
    p.add_argument("--jobs", type=int, default=8)
    p.add_argument("--list", action="store_true")
    p.add_argument("--only", default="")
    args = p.parse_args()

    base = Path(f"/tmp/mutants.{os.getpid()}")
    copies: Queue[Path] = Queue()
    for i in range(args.jobs):
        shutil.copytree("/repo", base / str(i), symlinks=True)
        copies.put(base / str(i))
    env = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "TZ": "UTC", "PYTHONHASHSEED": "0"}
    deselect = [x for n in ("deserialization", "serialization") for k in ("test_function", "test_async_function") for x in ("--deselect", f"tests/test_{n}.py::{k}")]

    def attempt(job: tuple[str, bytes, tuple[int, int, str, str]]) -> dict:
        name, data, (a, b, new, what) = job
        copy = copies.get()
        path = copy / "strong_typing" / name
        record = {"file": name, "what": what, "a": a, "b": b, "new": new}
        try:
            text = data[:a] + new.encode() + data[b:]
            try:
                compile(text, name, "exec")
            except SyntaxError:
                return {**record, "status": "syntax"}
            path.write_bytes(text)
            try:
                r = subprocess.run(
                    ["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "--no-header", "-p", "no:cacheprovider", "tests", *deselect],
                    cwd=copy, env={**env, "PYTHONPATH": str(copy)}, capture_output=True, timeout=120,
                )
                if r.returncode != 0:
                    return {**record, "status": "tests"}
            except subprocess.TimeoutExpired:
                return {**record, "status": "tests"}
            tried = []
            for check in RELATED[name].split():
                if not Path(f"{HOME}/pbt/checks/{check.lower()}.py").exists():
                    continue
                e = {**env, "VERIF_REPO": str(copy), "VERIF_SEED": "1", "VERIF_TIER": "quick", "VERIF_EVIDENCE": str(copy) + ".ev", "VERIF_JOBS": "1", "VERIF_SCALE": args.scale}
                try:
                    r = subprocess.run(["python3-vt", "run.py", check], cwd=HOME, env=e, capture_output=True, text=True, timeout=400)
                except subprocess.TimeoutExpired:
                    return {**record, "status": "timeout", "check": check}
                tried.append((check, r.returncode))
                if r.returncode == 1:
                    return {**record, "status": "killed", "check": check, "tried": tried}
                if r.returncode != 0:
                    lines = [x for x in (r.stdout + r.stderr).splitlines() if x.strip()]
                    return {**record, "status": "error", "check": check, "tail": lines[-3:]}
            return {**record, "status": "survived"}
        finally:
            path.write_bytes(data)
            copies.put(copy)

    jobs = []
    for name in args.files:
        text = Path("/repo/strong_typing", name).read_text()
        for m in mutations(text)[args.offset :: args.every]:
            if re.search(args.only, m[3]):
                jobs.append((name, text.encode(), m))
    if args.list:
        for j in jobs:
            print(j[0], j[2][3])
        print(len(jobs))
        return
    print(len(jobs), "mutants", flush=True)
    try:
        with open(args.out, "a") as f, ThreadPoolExecutor(args.jobs) as pool:
            for record in pool.map(attempt, jobs):
                f.write(json.dumps(record) + "\n")
                f.flush()
    finally:
        shutil.rmtree(base)


main()
