#!/usr/bin/env python3
"""Sensitivity measurement: mechanical changes of /repo/src/elli, each run through the checks responsible for the file.

    mutate.py [--count N] [--seed S] [--jobs J] [--scale X] [--files a,b] [--out FILE]

Changes are made in scratch copies under /tmp (removed afterwards).  Survivors are listed for inspection: equivalent
changes, or behaviour no check looks at.
"""
import argparse
import ast
import concurrent.futures as cf
import json
import os
import random
import shutil
import subprocess
import tempfile
import threading

REPO = "/repo"
SRC = "src/elli"

ORDER = {
    "experiment.py": "C32 C24 C25 C09 C07 C01 C06",
    "materials.py": "C21 C22 C24 C06 C02 C07 C33 C32",
    "result.py": "C12 C10 C09 C11 C13 C32 C25 C31",
    "solver.py": "C01 C02 C04",
    "solver2x2.py": "C01 C03 C04 C05 C06",
    "solver4x4.py": "C02 C03 C04 C08 C01 C33",
    "structure.py": "C23 C24 C05 C02 C07 C32",
    "utils.py": "C25 C11 C21 C12 C09 C26 C31",
    "database/refractive_index_info.py": "C28",
    "dispersions/base_dispersion.py": "C15 C16 C17 C32 C07 C06 C33",
    "dispersions/formula.py": "C19 C14 C15",
    "formula_parser/parser.py": "C19 C14",
    "dispersions/pseudo_dielectric.py": "C25 C17 C18",
    "dispersions/table_epsilon.py": "C18 C16 C06",
    "dispersions/table_index.py": "C18 C16 C06",
    "dispersions/table_spectraray.py": "C18 C27",
    "fitting/decorator.py": "C30", "fitting/decorator_mmatrix.py": "C30", "fitting/decorator_psi_delta.py": "C30",
    "fitting/params_hist.py": "C29 C30",
    "importer/accurion.py": "C26", "importer/nexus.py": "C27", "importer/spectraray.py": "C26",
    "importer/woollam.py": "C26",
    "kkr/kkr.py": "C20",
    "plot/mueller_matrix.py": "C31", "plot/structure.py": "C31",
}
DEFAULT = "C14 C15 C17 C06"

BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.MatMult: "*", ast.Mod: "*", ast.FloorDiv: "*"}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not",
       ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
NAMES = {"cos": "sin", "sin": "cos", "real": "imag", "imag": "real", "conjugate": "real", "conj": "real", "min": "max",
         "max": "min", "sqrt": "abs", "exp": "abs", "arctan": "tanh", "where": None, "append": None, "zeros": "ones",
         "ones": "zeros", "floor": "ceil", "any": "all", "all": "any", "deepcopy": "copy", "array": "asarray", "asarray": "array"}


def mutants(path):
    """(line, description, new source) for one file."""
    src = open(path, encoding="utf-8").read()
    tree = ast.parse(src)
    raw = src.encode()
    starts = [0]
    for line in raw.splitlines(keepends=True):
        starts.append(starts[-1] + len(line))

    def span(node):
        return (starts[node.lineno - 1] + node.col_offset, starts[node.end_lineno - 1] + node.end_col_offset)

    def swap(a, b, text, node, what):
        new = (raw[:a] + text.encode() + raw[b:]).decode()
        try:
            ast.parse(new)
        except SyntaxError:
            return
        out.append((node.lineno, f"{what}: {raw[a:b].decode()[:60]!r} -> {text[:60]!r}", new))

    out = []
    skip = set()
    for node in ast.walk(tree):
        if isinstance(node, (ast.Raise, ast.Import, ast.ImportFrom)):
            for n in ast.walk(node):
                skip.add(n)
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for a in node.args.args + node.args.kwonlyargs:
                if a.annotation:
                    for n in ast.walk(a.annotation):
                        skip.add(n)
            if node.returns:
                for n in ast.walk(node.returns):
                    skip.add(n)
        if isinstance(node, ast.AnnAssign):
            for n in ast.walk(node.annotation):
                skip.add(n)
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
            skip.add(node)
            skip.add(node.value)
    for node in ast.walk(tree):
        if node in skip:
            continue
        if isinstance(node, ast.BinOp) and type(node.op) in BIN:
            la, lb = span(node.left)
            ra, rb = span(node.right)
            swap(span(node)[0], span(node)[1], f"({raw[la:lb].decode()} {BIN[type(node.op)]} {raw[ra:rb].decode()})"
                 if raw[span(node)[0]:la] == b"" else None or f"({ast.unparse(node.left)}) {BIN[type(node.op)]} ({ast.unparse(node.right)})",
                 node, "op")
        elif isinstance(node, ast.UnaryOp):
            a, b = span(node)
            swap(a, b, f"({ast.unparse(node.operand)})", node, "unary")
        elif isinstance(node, ast.Compare) and type(node.ops[0]) in CMP:
            a, b = span(node)
            swap(a, b, f"({ast.unparse(node.left)} {CMP[type(node.ops[0])]} {ast.unparse(node.comparators[0])})", node, "cmp")
        elif isinstance(node, ast.BoolOp):
            a, b = span(node)
            o = " or " if isinstance(node.op, ast.And) else " and "
            swap(a, b, "(" + o.join(f"({ast.unparse(v)})" for v in node.values) + ")", node, "bool")
        elif isinstance(node, ast.Constant) and not isinstance(node.value, (str, bytes)) and node.value is not None and node.value is not Ellipsis:
            a, b = span(node)
            v = node.value
            if isinstance(v, bool):
                swap(a, b, str(not v), node, "const")
            elif isinstance(v, int):
                swap(a, b, str(v + 1), node, "const")
                if v:
                    swap(a, b, "0", node, "const")
            else:
                swap(a, b, repr(v * 1.01), node, "const")
        elif isinstance(node, (ast.If, ast.IfExp)):
            a, b = span(node.test)
            swap(a, b, "True", node, "if")
            swap(a, b, "False", node, "if")
        elif isinstance(node, (ast.AugAssign,)) or (isinstance(node, ast.Expr) and isinstance(node.value, ast.Call)):
            a, b = span(node)
            swap(a, b, "pass", node, "delete")
        elif isinstance(node, ast.Assign) and isinstance(node.targets[0], (ast.Attribute, ast.Subscript)):
            a, b = span(node)
            swap(a, b, "pass", node, "delete")
        elif isinstance(node, ast.Return) and isinstance(node.value, ast.Name) and node.value.id == "self":
            a, b = span(node)
            swap(a, b, "pass", node, "return self")
        elif isinstance(node, ast.Call):
            if isinstance(node.func, ast.Attribute) and NAMES.get(node.func.attr):
                a, b = span(node.func)
                swap(a, b, f"{ast.unparse(node.func.value)}.{NAMES[node.func.attr]}", node, "name")
            for k in node.keywords:
                if k.arg and not isinstance(k.value, ast.Constant) or (k.arg and isinstance(k.value, ast.Constant)):
                    rest = ast.Call(node.func, node.args, [x for x in node.keywords if x is not k])
                    a, b = span(node)
                    swap(a, b, ast.unparse(rest), node, f"keyword {k.arg}")
            if len(node.args) == 2 and not node.keywords:
                a, b = span(node)
                swap(a, b, ast.unparse(ast.Call(node.func, node.args[::-1], [])), node, "swap args")
        elif isinstance(node, ast.Attribute) and node.attr in ("T", "real", "imag") and isinstance(node.ctx, ast.Load):
            a, b = span(node)
            swap(a, b, ast.unparse(node.value), node, "attr")
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--count", type=int, default=200)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--jobs", type=int, default=6)
    ap.add_argument("--scale", default="0.2")
    ap.add_argument("--files", default="")
    ap.add_argument("--out", default="/tmp/mut/out.jsonl")
    args = ap.parse_args()
    files = []
    for base, _, names in os.walk(f"{REPO}/{SRC}"):
        for n in names:
            if n.endswith(".py") and n != "__init__.py":
                files.append(os.path.relpath(os.path.join(base, n), f"{REPO}/{SRC}"))
    files.sort()
    if args.files:
        files = [f for f in files if any(f.startswith(x) for x in args.files.split(","))]
    todo = []
    for f in files:
        if f.endswith("materials_db.py"):
            continue
        todo += [(f,) + m for m in mutants(f"{REPO}/{SRC}/{f}")]
    print(len(todo), "changes possible", flush=True)
    done = set()
    if os.path.exists(args.out):
        done = {(r["file"], r["line"], r["what"]) for r in map(json.loads, open(args.out))}
    random.Random(args.seed).shuffle(todo)
    todo = [t for t in todo if (t[0], t[1], t[2]) not in done][:args.count]
    lock = threading.Lock()

    def one(item):
        f, line, what, new = item
        work = tempfile.mkdtemp(prefix="mut", dir="/tmp")
        try:
            os.makedirs(f"{work}/repo")
            subprocess.run(["cp", "-a", f"{REPO}/src", f"{work}/repo/"], check=True)
            subprocess.run(["cp", "-a", f"{REPO}/examples", f"{work}/repo/"], check=False)
            open(f"{work}/repo/{SRC}/{f}", "w", encoding="utf-8").write(new)
            caught = None
            shutil.copytree("/verif", f"{work}/verif", ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replays"))
            os.makedirs(f"{work}/verif/evidence")
            os.makedirs(f"{work}/verif/replays", exist_ok=True)
            env = dict(os.environ, VERIF_REPO=f"{work}/repo", VERIF_SEED="1", VERIF_FAST="1", PYTHONDONTWRITEBYTECODE="1")
            status = []
            for c in ORDER.get(f, DEFAULT).split():
                try:
                    p = subprocess.run(["/opt/venv/bin/python", "run.py", c, "--tier", "quick", "--scale", args.scale, "--jobs", "2"],
                                       cwd=f"{work}/verif", env=env, capture_output=True, text=True, timeout=600)
                except subprocess.TimeoutExpired:
                    status.append(f"{c}:timeout")
                    caught = c
                    break
                status.append(f"{c}:{p.returncode}")
                if p.returncode:
                    caught = c
                    break
            with lock:
                with open(args.out, "a") as fh:
                    fh.write(json.dumps({"file": f, "line": line, "what": what, "caught": caught, "status": status}) + "\n")
                if not caught:
                    print("SURVIVED", f, line, what, flush=True)
        finally:
            shutil.rmtree(work)

    with cf.ThreadPoolExecutor(args.jobs) as ex:
        list(ex.map(one, todo))
    rows = [json.loads(x) for x in open(args.out)]
    print(len(rows), "run,", sum(bool(r["caught"]) for r in rows), "caught")


if __name__ == "__main__":
    main()
