#!/usr/bin/env python3
"""Small code changes, made one at a time in scratch copies of /repo, that the shipped tests let through.

  mutate.py gen OUTDIR [--n N] [--seed S] [--files a.py,b.py]   survivors of the tests: OUTDIR/<k>.json
  mutate.py check OUTDIR [--jobs J]                             run the checks of the file on each survivor

Nothing is written in /repo.  Used to find what the checks miss; no check reads its output.
"""
import ast
import copy
import glob
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

PY = "/opt/venv/bin/python"
REPO = os.environ.get("MUT_REPO", "/repo")
FILES = {
    "pprint.py": ["C03"], "quoter.py": ["C03"], "ordereddict.py": ["C17", "C03"], "dictutils.py": ["C18", "C12"], "parser.py": ["C15", "C11", "C12", "C20"],
    "transformer.py": ["C11", "C12", "C20", "C15"], "validator.py": ["C09", "C20", "C12"], "utils.py": ["C20", "C15", "C12", "C03"], "cli.py": ["C20"], "tokens.py": ["C03", "C17", "C11"],
}


def arg(name, default):
    return sys.argv[sys.argv.index(name) + 1] if name in sys.argv else default


CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}


def sites(tree):
    """(line, description, function that changes the tree in place)."""
    out = []

    def add(n, d, f):
        out.append((getattr(n, "lineno", 0), d, f))

    def setter(n, **kw):
        def f():
            for k, v in kw.items():
                setattr(n, k, v)

        return f

    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            add(n, f"{type(n.ops[0]).__name__} flipped", setter(n, ops=[CMP[type(n.ops[0])]()]))
        elif isinstance(n, ast.BoolOp):
            add(n, "and/or swapped", setter(n, op=ast.Or() if isinstance(n.op, ast.And) else ast.And()))
            for i in range(len(n.values)):
                if len(n.values) > 1:
                    add(n, f"operand {i} of {type(n.op).__name__} dropped", setter(n, values=[v for j, v in enumerate(n.values) if j != i]))
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            add(n, "condition true", setter(n, test=ast.Constant(True)))
            add(n, "condition false", setter(n, test=ast.Constant(False)))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            add(n, f"{n.value} negated", setter(n, value=not n.value))
        elif isinstance(n, ast.Constant) and isinstance(n.value, int):
            add(n, f"{n.value}+1", setter(n, value=n.value + 1))
            add(n, f"{n.value}-1", setter(n, value=n.value - 1))
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and 0 < len(n.value) < 25:
            add(n, f"{n.value!r} changed", setter(n, value=n.value + "x"))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("lower", "upper", "strip", "copy", "deepcopy", "rstrip", "lstrip"):
            if not n.args:
                add(n, f".{n.func.attr}() dropped", setter(n, func=ast.Name("_same", ast.Load()), args=[n.func.value]))
            else:
                add(n, f"{n.func.attr}(x) dropped", setter(n, func=ast.Name("_same", ast.Load())))
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            add(n, "+/- swapped", setter(n, op=ast.Sub() if isinstance(n.op, ast.Add) else ast.Add()))
        if hasattr(n, "body") and isinstance(n.body, list):
            for fld in ("body", "orelse", "finalbody"):
                b = getattr(n, fld, None)
                if not isinstance(b, list):
                    continue
                for i, s in enumerate(b):
                    if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Return, ast.Continue, ast.Raise, ast.Delete, ast.Break)):
                        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                            continue

                        def f(b=b, i=i):
                            b[i] = ast.copy_location(ast.Pass(), b[i])

                        add(s, "statement dropped: " + ast.unparse(s)[:60], f)
    return out


def mutants(files, n, seed):
    rng = random.Random(seed)
    al = []
    for f in files:
        src = open(os.path.join(REPO, "mappyfile", f)).read()
        for k in range(len(sites(ast.parse(src)))):
            al.append((f, k))
    rng.shuffle(al)
    return al[:n] if n else al


def make(f, k, dst):
    src = open(os.path.join(REPO, "mappyfile", f)).read()
    tree = ast.parse(src)
    line, d, fn = sites(tree)[k]
    fn()
    ast.fix_missing_locations(tree)
    new = ast.unparse(tree)
    if "_same(" in new:
        # after the future imports
        lines = new.split("\n")
        i = max([j for j, l in enumerate(lines) if l.startswith("from __future__")], default=-1) + 1
        lines.insert(i, "_same = lambda x, *a: x")
        new = "\n".join(lines)
    open(os.path.join(dst, "mappyfile", f), "w").write(new)
    return line, d, src.split("\n")[line - 1].strip() if line else ""


def clone(dst):
    shutil.copytree(REPO, dst, ignore=shutil.ignore_patterns(".git", "__pycache__"))


ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PATH="/opt/venv/bin:/usr/bin:/bin", LANG="C.UTF-8")


def gen():
    out = sys.argv[2]
    os.makedirs(out, exist_ok=True)
    files = arg("--files", ",".join(FILES)).split(",")
    al = mutants(files, int(arg("--n", "0")), int(arg("--seed", "1")))
    base = tempfile.mkdtemp(prefix="mut-", dir="/tmp")

    def one(j):
        f, k = al[j]
        o = os.path.join(out, f"{f[:-3]}-{k}.json")
        if os.path.exists(o):
            return
        d = os.path.join(base, str(j))
        clone(d)
        try:
            line, desc, text = make(f, k, d)
            try:
                r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-p", "no:xdist", "--timeout=120", "tests", "docs/examples", "misc"], cwd=d,
                                   env=dict(ENV, PYTHONPATH=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
                ok = r.returncode == 0
            except subprocess.TimeoutExpired:
                ok = False
        finally:
            shutil.rmtree(d, ignore_errors=True)
        json.dump({"file": f, "site": k, "line": line, "what": desc, "text": text, "survives": ok}, open(o, "w"))
        if ok:
            print("survives", f, line, desc, "|", text, flush=True)

    try:
        with ThreadPoolExecutor(int(arg("--jobs", "8"))) as ex:
            list(ex.map(one, range(len(al))))
    finally:
        shutil.rmtree(base, ignore_errors=True)


def check():
    out = sys.argv[2]
    only = arg("--only", "").split(",") if "--only" in sys.argv else None
    base = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    try:
        for o in sorted(glob.glob(os.path.join(out, "*.json"))):
            m = json.load(open(o))
            if not m["survives"] or "checks" in m or m.get("skip"):
                continue
            if only and m["file"] not in only:
                continue
            d = os.path.join(base, "r")
            clone(d)
            m["checks"] = {}
            make(m["file"], m["site"], d)
            for p in FILES[m["file"]]:
                try:
                    r = subprocess.run([PY, "check.py", p, "--no-evidence"], cwd="/verif", env=dict(ENV, SIM_REPO=d, PYTHONPATH=d, VERIF_SEED="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
                    m["checks"][p] = r.returncode
                    if r.returncode not in (0, 1):
                        m["tail"] = r.stdout[-1500:]
                except subprocess.TimeoutExpired:
                    m["checks"][p] = "timeout"
                if m["checks"][p] == 1:
                    break
            shutil.rmtree(d)
            json.dump(m, open(o, "w"))
            print("CAUGHT" if 1 in m["checks"].values() else "missed", m["checks"], m["file"], m["line"], m["what"], "|", m["text"], flush=True)
    finally:
        shutil.rmtree(base, ignore_errors=True)


{"gen": gen, "check": check}[sys.argv[1]]()
