"""Mutation sweep (development tool; no check uses it).

  mutate.py gen OUT.json                  list all mutants of /repo/staircase/core
  mutate.py tests IN.json OUT.jsonl [-j N] [--max N] [--seed S]   which pass the repository's tests (appends, resumes)
  mutate.py check OUT.jsonl RES.jsonl [-j N] [--scale X]          which of the survivors the checks report
"""
import argparse
import ast
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
import threading

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "TZ": "UTC", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "PYTHONHASHSEED": "0",
       "MPLCONFIGDIR": "/opt/venv/mplconfig"}
FILES = ["core/stairs.py", "core/layering.py", "core/sampling.py", "core/slicing.py", "core/ops/arithmetic.py", "core/ops/common.py", "core/ops/logical.py",
         "core/ops/masking.py", "core/ops/relational.py", "core/ops/rops.py", "core/ops/__init__.py", "core/stats/statistic.py", "core/stats/distribution.py",
         "core/stats/__init__.py", "core/arrays/__init__.py", "core/arrays/accessor.py", "core/arrays/extension.py", "util/__init__.py", "util/_decorators.py"]
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.BitAnd: "|", ast.BitOr: "&"}
STR = {"left": "right", "right": "left", "value": "delta", "delta": "value", "both": "left", "neither": "right", "pre": "post", "post": "pre", "min": "max", "max": "min", "lower": "higher"}
ATTR = {"left": "right", "right": "left", "min": "max", "max": "min", "and_": "or_", "_valid_deltas": "_valid_values", "_valid_values": "_valid_deltas", "ffill": "bfill", "bfill": "ffill",
        "all": "any", "any": "all", "ge": "gt", "gt": "ge", "le": "lt", "lt": "le", "start": "end", "end": "start", "bisect_left": "bisect_right", "bisect_right": "bisect_left"}


def mutants(rel):
    src = open("/repo/staircase/" + rel).read()
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()
    tree = ast.parse(src)
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0]))
            docs.add(id(n.body[0].value))
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                for x in ast.walk(d):
                    docs.add(id(x))
        if isinstance(n, ast.Raise):
            for x in ast.walk(n):
                docs.add(id(x))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "warn":
            for x in ast.walk(n):
                docs.add(id(x))
    out = []

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def add(n, new, kind, span=None):
        s, e = span or pos(n)
        out.append({"file": rel, "s": s, "e": e, "old": b[s:e].decode(), "new": new, "line": n.lineno, "kind": kind})

    def seg(n):
        s, e = pos(n)
        return b[s:e].decode()

    for n in ast.walk(tree):
        if id(n) in docs:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                add(n, "(%s %s %s)" % (seg(n.left), o, seg(n.comparators[0])), "cmp")
        elif isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + o.join("(%s)" % seg(v) for v in n.values) + ")", "boolop")
            for k in range(len(n.values)):
                o2 = " and " if isinstance(n.op, ast.And) else " or "
                add(n, "(" + o2.join("(%s)" % seg(v) for j, v in enumerate(n.values) if j != k) + ")", "dropcond")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
            add(n, "(%s)" % seg(n.operand), "unary")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            add(n, "(%s) %s (%s)" % (seg(n.left), BIN[type(n.op)], seg(n.right)), "binop")
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                add(n, str(not n.value), "const")
            elif isinstance(n.value, int):
                add(n, str(n.value + 1), "const")
                if n.value:
                    add(n, str(n.value - 1), "const")
            elif isinstance(n.value, str) and n.value in STR:
                add(n, '"%s"' % STR[n.value], "str")
        elif isinstance(n, ast.Attribute) and n.attr in ATTR:
            add(n, seg(n.value) + "." + ATTR[n.attr], "attr")
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute):
                add(n, seg(n.func.value), "dropcall")
            for k in n.keywords:
                if k.arg:
                    parts = [seg(x) for x in n.args] + [seg(x.value) if x.arg is None and False else ("**" + seg(x.value) if x.arg is None else x.arg + "=" + seg(x.value)) for x in n.keywords if x is not k]
                    add(n, seg(n.func) + "(" + ", ".join(parts) + ")", "dropkw")
            if len(n.args) == 2 and not n.keywords:
                add(n, "%s(%s, %s)" % (seg(n.func), seg(n.args[1]), seg(n.args[0])), "swapargs")
        if isinstance(n, (ast.If, ast.IfExp)):
            add(n.test, "True", "cond")
            add(n.test, "False", "cond")
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)) and hasattr(n, "lineno"):
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.col_offset == 0:
                continue
            add(n, "pass", "dropstmt")
        if isinstance(n, ast.IfExp):
            add(n, seg(n.body), "ifexp")
            add(n, seg(n.orelse), "ifexp")
    good = []
    seen = set()
    for m in out:
        t = b[: m["s"]] + m["new"].encode() + b[m["e"]:]
        if t in seen or t == b:
            continue
        seen.add(t)
        try:
            compile(t, rel, "exec")
        except SyntaxError:
            continue
        good.append(m)
    return good


local = threading.local()
lock = threading.Lock()
ids = iter(range(1000))


def workdir():
    if not hasattr(local, "d"):
        with lock:
            k = next(ids)
        local.d = "/tmp/mut/w%d-%d" % (os.getpid(), k)
        shutil.rmtree(local.d, ignore_errors=True)
        shutil.copytree("/repo", local.d, ignore=shutil.ignore_patterns(".git", "__pycache__", "docs"))
    return local.d


def apply(m):
    d = workdir()
    p = os.path.join(d, "staircase", m["file"])
    src = open("/repo/staircase/" + m["file"], "rb").read()
    open(p, "wb").write(src[: m["s"]] + m["new"].encode() + src[m["e"]:])
    return d


def undo(m):
    shutil.copy("/repo/staircase/" + m["file"], os.path.join(workdir(), "staircase", m["file"]))


def test(m):
    d = apply(m)
    try:
        p = subprocess.run([PY, "-m", "pytest", "tests/test_floats", "tests", "-x", "-q", "-p", "no:cacheprovider", "-p", "no:xdist", "--timeout=120", "--disable-warnings"],
                           cwd=d, env={**ENV, "PYTHONPATH": d}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
        ok = p.returncode == 0
    except subprocess.TimeoutExpired:
        ok = False
    undo(m)
    return ok


def check(m, scale, props):
    d = apply(m)
    hit = {}
    for p in props:
        out = "/tmp/mut/out-%d-%d" % (os.getpid(), threading.get_ident())
        r = subprocess.run([PY, "harness/run.py", "--prop", p, "--scale", str(scale), "--jobs", "1", "--out", out], cwd=ROOT,
                           env={**ENV, "PYTHONPATH": d, "VERIF_NOSHRINK": "1"}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        shutil.rmtree(out, ignore_errors=True)
        if r.returncode:
            hit[p] = r.returncode
            break
    undo(m)
    return hit


def key(m):
    return json.dumps([m["file"], m["s"], m["e"], m["new"]])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd")
    ap.add_argument("files", nargs="*")
    ap.add_argument("-j", type=int, default=6)
    ap.add_argument("--max", type=int, default=10**9)
    ap.add_argument("--seed", default="1")
    ap.add_argument("--scale", type=float, default=0.25)
    a = ap.parse_args()
    if a.cmd == "gen":
        ms = [m for f in FILES for m in mutants(f)]
        json.dump(ms, open(a.files[0], "w"))
        print(len(ms))
        return
    if a.cmd == "tests":
        ms = json.load(open(a.files[0]))
        random.Random(a.seed).shuffle(ms)
        done = set()
        if os.path.exists(a.files[1]):
            done = {key(json.loads(l)) for l in open(a.files[1])}
        ms = [m for m in ms[: a.max] if key(m) not in done]

        def one(m):
            m["pass"] = test(m)
            with lock:
                open(a.files[1], "a").write(json.dumps(m) + "\n")

        with ThreadPoolExecutor(a.j) as ex:
            list(ex.map(one, ms))
    elif a.cmd == "check":
        ms = [json.loads(l) for l in open(a.files[0])]
        ms = [m for m in ms if m["pass"]]
        done = set()
        if os.path.exists(a.files[1]):
            done = {key(json.loads(l)) for l in open(a.files[1])}
        props = ["C16", "C12", "C14", "C18", "C17", "C11", "C02", "C09", "C15", "C20", "C19", "C03", "C06", "C10", "C13", "C05", "C08", "C07", "C04", "C01"]

        def one(m):
            m["hit"] = check(m, a.scale, props)
            with lock:
                open(a.files[1], "a").write(json.dumps(m) + "\n")

        with ThreadPoolExecutor(a.j) as ex:
            list(ex.map(one, [m for m in ms if key(m) not in done]))


main()
