"""Which small changes of the library do neither the tests nor the checks notice?

Development aid: mutate.py OUT.jsonl N SEED FILE [FILE ...]   (files below castep_outputs)
Each mutant is tried in a scratch copy: first the project's tests, then the checks of its file.
"""
from __future__ import annotations

import ast
import copy
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path
from threading import Lock

VERIF = Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"
WORKERS = int(os.environ.get("MUT_WORKERS", "6"))
CHECKS = (
    ("parsers/castep_file", ("C16", "C14", "C13", "C07")),
    ("parsers/cell_param", ("C18", "C08")),
    ("parsers/md_geom", ("C16", "C03", "C01")),
    ("parsers/", ("C16", "C13", "C07", "C08")),
    ("bin_parsers/fortran", ("C04", "C05")),
    ("bin_parsers/", ("C05", "C16")),
    ("cli/args", ("C12", "C10")),
    ("cli/", ("C10", "C12", "C06", "C17")),
    ("utilities/dumpers", ("C10", "C11")),
    ("utilities/filewrapper", ("C15", "C07", "C13", "C16")),
    ("utilities/type_conv", ("C16", "C05", "C18")),
    ("utilities/castep_res", ("C16", "C18", "C14")),
    ("utilities/", ("C16", "C10", "C17", "C07", "C08")),
    ("tools/md_geom", ("C01", "C02", "C03", "C17")),
    ("tools/get_gen", ("C11", "C08")),
)
SWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq,
        ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is,
        ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.And: ast.Or, ast.Or: ast.And}


def runs(check: str) -> int:
    """A third of what the quick check does."""
    text = (VERIF / "sim/checks" / f"{check.lower()}.py").read_text()
    return int(re.search(r"QUICK = (\d+)", text)[1]) // 3


def docstrings(tree) -> set[int]:
    return {id(n.body[0].value) for n in ast.walk(tree)
            if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef)) and n.body
            and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant)}


def sites(tree):
    """(node number, description, edit) for every possible change."""
    docs = docstrings(tree)
    skip: set[int] = set()
    for n in ast.walk(tree):  # annotations and log messages say nothing
        for f in ("annotation", "returns"):
            if getattr(n, f, None) is not None:
                skip |= {id(x) for x in ast.walk(getattr(n, f))}
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("logger", "overload"):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.Raise):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.FunctionDef) and any("overload" in ast.unparse(d) for d in n.decorator_list):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.ClassDef) and any("Dict" in ast.unparse(b) for b in n.bases):
            skip |= {id(x) for x in ast.walk(n)}
    out = []
    for i, n in enumerate(ast.walk(tree)):
        if id(n) in skip or id(n) in docs:
            continue
        if isinstance(n, ast.Compare):
            out += [(i, "cmp", k) for k in range(len(n.ops))]
        elif isinstance(n, ast.BoolOp):
            out.append((i, "bool", 0))
            out += [(i, "dropcond", k) for k in range(len(n.values))]
        elif isinstance(n, ast.BinOp) and type(n.op) in SWAP:
            out.append((i, "arith", 0))
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            out.append((i, "negate", 0))
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                out.append((i, "flip", 0))
            elif isinstance(n.value, int):
                out += [(i, "int", 1), (i, "int", -1)]
            elif isinstance(n.value, str) and n.value:
                out += [(i, "re", k) for k, _ in enumerate(regex_edits(n.value))]
        elif isinstance(n, ast.Continue):
            out.append((i, "continue", 0))
        elif isinstance(n, ast.Break):
            out.append((i, "break", 0))
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)) and not (
                isinstance(n, ast.Expr) and (isinstance(n.value, ast.Constant) or id(n.value) in skip)):
            out.append((i, "delete", 0))
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            out.append((i, "unslice", 0))
        elif isinstance(n, ast.Call) and n.keywords:
            out += [(i, "kw", k) for k in range(len(n.keywords)) if n.keywords[k].arg]
    return out


def regex_edits(s: str) -> list[str]:
    out = []
    for a, b in ((r"\s*", r"\s+"), (r"\s+", r"\s"), (r"\d+", r"\d"), ("+", "*"), ("*", "+"), ("^", ""), ("$", ""),
                 ("?", ""), ("|", "")):
        for m in re.finditer(re.escape(a), s):
            out.append(s[:m.start()] + b + s[m.end():])
    return out if re.search(r"[\\^$*|]", s) else []


def apply(tree, site) -> str:
    i, kind, k = site
    new = copy.deepcopy(tree)
    nodes = list(ast.walk(new))
    n = nodes[i]
    before = ast.unparse(n)[:110]
    line = getattr(n, "lineno", 0)

    def swap_in(repl):
        for p in nodes:
            for f, v in ast.iter_fields(p):
                if v is n:
                    setattr(p, f, repl)
                    return
                if isinstance(v, list):
                    for j, x in enumerate(v):
                        if x is n:
                            v[j] = repl
                            return

    if kind == "cmp":
        if type(n.ops[k]) not in SWAP:
            return "", ""
        n.ops[k] = SWAP[type(n.ops[k])]()
    elif kind == "bool":
        n.op = SWAP[type(n.op)]()
    elif kind == "dropcond":
        del n.values[k]
        if len(n.values) == 1:
            swap_in(n.values[0])
            n = n.values[0]
    elif kind == "arith":
        n.op = SWAP[type(n.op)]()
    elif kind == "negate":
        n.test = ast.UnaryOp(ast.Not(), n.test)
        before = before.splitlines()[0]
    elif kind == "flip":
        n.value = not n.value
    elif kind == "int":
        n.value += k
    elif kind == "re":
        n.value = regex_edits(n.value)[k]
    elif kind == "continue":
        swap_in(ast.Break())
    elif kind == "break":
        swap_in(ast.Pass())
    elif kind == "delete":
        swap_in(ast.Pass())
    elif kind == "unslice":
        swap_in(n.value)
    elif kind == "kw":
        gone = n.keywords.pop(k)
        before = f"{ast.unparse(gone)} of {before}"
    ast.fix_missing_locations(new)
    after = ast.unparse(n)[:110].splitlines()[0] if kind not in ("delete", "continue", "break", "unslice") else kind
    return ast.unparse(new), f"{line} {kind}{k}: {before.splitlines()[0]} -> {after}"


def main() -> None:
    out, count, seed, *files = sys.argv[1:]
    rng = random.Random(int(seed))
    todo = []
    for f in files:
        tree = ast.parse(Path("/repo/castep_outputs", f).read_text())
        todo += [(f, tree, s) for s in sites(tree)]
    rng.shuffle(todo)
    todo = todo[:int(count)]
    base = Path(tempfile.mkdtemp(prefix="mut."))
    lock = Lock()
    free = []
    for w in range(WORKERS):
        subprocess.run(["git", "clone", "-q", "/repo", str(base / f"w{w}")], check=True)
        free.append(base / f"w{w}")
    env = {k: v for k, v in os.environ.items() if not k.startswith("VERIF_")} | {"PYTHONDONTWRITEBYTECODE": "1"}

    def work(item):
        f, tree, site = item
        text, what = apply(tree, site)
        if not text:
            return
        with lock:
            d = free.pop()
        try:
            path = d / "castep_outputs" / f
            old = path.read_text()
            path.write_text(text)
            rec = {"file": f, "what": what}
            try:
                r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--doctest-modules",
                                    "castep_outputs", "test"], cwd=d, env={**env, "PYTHONPATH": str(d)},
                                   capture_output=True, text=True, timeout=90, check=False)
                if r.returncode:
                    rec["by"] = "tests"
            except subprocess.TimeoutExpired:
                rec["by"] = "tests"
            if "by" not in rec:
                for check in next(c for p, c in CHECKS if f.startswith(p)):
                    try:
                        r = subprocess.run([PY, "sim/main.py", "check", check, "--workers", "1", "--seed", "1",
                                            "--runs", str(runs(check))],
                                           cwd=VERIF, env={**env, "SIM_REPO": str(d),
                                                           "SIM_EVIDENCE": str(base / (d.name + ".ev"))},
                                           capture_output=True, text=True, timeout=700, check=False)
                        code = r.returncode
                    except subprocess.TimeoutExpired:
                        code = "timeout"
                    if code:
                        rec["by"] = check
                        rec["code"] = code
                        rec["kind"] = next((x[:120] for x in r.stdout.splitlines() if x.startswith("kind=")), "")
                        break
                else:
                    rec["by"] = None
            path.write_text(old)
        finally:
            with lock:
                free.append(d)
        with lock, open(out, "a") as fh:
            fh.write(json.dumps(rec) + "\n")

    with ThreadPoolExecutor(WORKERS) as pool:
        list(pool.map(work, todo))
    shutil.rmtree(base)


main()
