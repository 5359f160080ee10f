"""Mutation campaign: which changes that pass the tests do the checks find?

usage: mutate.py make OUT.json N SEED        draw N mutants
       mutate.py tests OUT.json              keep those that pass the tests
       mutate.py checks OUT.json [SEED]      run the checks on those

Run by hand; works in scratch copies of /repo under /tmp.
"""
import ast
import concurrent.futures
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ["ibl/ibl_method.py", "ibl/thwaites_method.py", "ibl/head_method.py",
         "ibl/initial_condition.py", "ibl/skin_friction.py",
         "ibl/analytic/_analytic_2d_base.py", "ibl/analytic/_blasius.py",
         "ibl/analytic/_falkner_skan.py", "ibl/reference/_stanford_1968.py",
         "ibl/reference/_stanford_1968_station.py",
         "ibl/reference/_xfoil_data.py", "ibl/reference/_xfoil_reader.py"]
SOLVER = ["C01", "C07", "C03", "C10", "C06", "C05", "C02", "C17", "C04",
          "C18", "C09", "C08"]
ANALYTIC = ["C16", "C15", "C18", "C09", "C08"]
READER = ["C11", "C12", "C13", "C14", "C18", "C09", "C08"]
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">",
       ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*",
       ast.Pow: "*"}


def sites(src):
    """Return [(start, end, new text, what)] of one file."""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for line in lines:
        offs.append(offs[-1] + len(line.encode()))
    raw = src.encode()

    def at(node):
        return (offs[node.lineno - 1] + node.col_offset,
                offs[node.end_lineno - 1] + node.end_col_offset)

    def text(node):
        a, b = at(node)
        return raw[a:b].decode()
    out = []
    skip = set()
    for node in ast.walk(tree):
        if isinstance(node, (ast.AnnAssign, ast.FunctionDef, ast.arg)):
            ann = getattr(node, "annotation", None) or getattr(
                node, "returns", None)
            for n in ast.walk(ann) if ann is not None else ():
                skip.add(id(n))
        if isinstance(node, ast.Raise):
            for n in ast.walk(node):
                if n is not node:
                    skip.add(id(n))
    for node in ast.walk(tree):
        if id(node) in skip:
            continue
        new = None
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            op = CMP.get(type(node.ops[0]))
            if op:
                new = f"{text(node.left)} {op} {text(node.comparators[0])}"
                out.append((*at(node), f"({new})", "comparison"))
        elif isinstance(node, ast.BinOp) and type(node.op) in BIN:
            new = (f"({text(node.left)} {BIN[type(node.op)]} "
                   f"{text(node.right)})")
            if not isinstance(node.left, (ast.Constant, ast.JoinedStr)) \
                    or not isinstance(getattr(node.left, "value", 0), str):
                out.append((*at(node), new, "operator"))
        elif isinstance(node, ast.BoolOp):
            op = "or" if isinstance(node.op, ast.And) else "and"
            out.append((*at(node), "(" + f" {op} ".join(
                text(v) for v in node.values) + ")", "boolean"))
            for i in range(len(node.values)):
                rest = [v for j, v in enumerate(node.values) if j != i]
                out.append((*at(node), "(" + (
                    " and " if op == "or" else " or ").join(
                        text(v) for v in rest) + ")", "clause dropped"))
        elif isinstance(node, ast.UnaryOp):
            out.append((*at(node), text(node.operand), "unary dropped"))
        elif isinstance(node, ast.Constant) and isinstance(
                node.value, (int, float)) and not isinstance(node.value,
                                                             bool):
            for v in (node.value + 1, node.value*1.01):
                if v != node.value:
                    out.append((*at(node), repr(v), "constant"))
        elif isinstance(node, ast.Constant) and isinstance(node.value, bool):
            out.append((*at(node), repr(not node.value), "flag"))
        elif isinstance(node, (ast.If, ast.While)):
            t = text(node.test)
            out.append((*at(node.test), f"(not ({t}))", "negated"))
            if isinstance(node, ast.If):
                out.append((*at(node.test), "False", "branch never"))
                out.append((*at(node.test), "True", "branch always"))
        elif isinstance(node, ast.Call):
            name = text(node.func)
            if len(node.args) == 1 and not node.keywords and name in (
                    "list", "copy.copy", "np.asarray", "float", "np.array",
                    "np.atleast_1d", "abs", "np.abs"):
                out.append((*at(node), f"({text(node.args[0])})",
                            f"{name} dropped"))
            if node.keywords:
                for kw in node.keywords:
                    if kw.arg:
                        a, b = at(kw)
                        end = b
                        while raw[end:end + 1] in (b" ", b","):
                            end += 1
                        out.append((a, end, "", f"argument {kw.arg} "
                                    "dropped"))
        if isinstance(node, (ast.Assign, ast.AugAssign)) or (
                isinstance(node, ast.Expr)
                and isinstance(node.value, ast.Call)) or isinstance(
                    node, (ast.Raise, ast.Break)):
            out.append((*at(node), "pass", "statement dropped"))
    return out


def make(path, n, seed):
    """Draw mutants."""
    rng = random.Random(int(seed))
    every = []
    for f in FILES:
        with open(f"/repo/{f}", encoding="utf-8") as h:
            src = h.read()
        for a, b, new, what in sites(src):
            mut = (src.encode()[:a] + new.encode() + src.encode()[b:])
            try:
                compile(mut, f, "exec")
            except SyntaxError:
                continue
            every.append({"file": f, "a": a, "b": b, "new": new,
                          "what": what, "line": src.encode()[:a].count(
                              b"\n") + 1,
                          "old": src.encode()[a:b].decode()})
    print(len(every), "sites")
    # as many of each kind and file
    groups = {}
    for m in every:
        groups.setdefault((m["file"], m["what"].split()[-1]), []).append(m)
    out = []
    keys = sorted(groups)
    for g in groups.values():
        rng.shuffle(g)
    while len(out) < int(n) and keys:
        for k in list(keys):
            if not groups[k]:
                keys.remove(k)
            else:
                out.append(groups[k].pop())
    out = out[:int(n)]
    with open(path, "w", encoding="utf-8") as h:
        json.dump(out, h, indent=0)
    print(len(out), "mutants")


def copy(m, k):
    """Make a copy of the repository with a mutation."""
    d = f"/tmp/mut_{k}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, symlinks=True,
                    ignore=shutil.ignore_patterns(".git"))
    p = os.path.join(d, m["file"])
    with open(p, "rb") as h:
        raw = h.read()
    with open(p, "wb") as h:
        h.write(raw[:m["a"]] + m["new"].encode() + raw[m["b"]:])
    return d


def tests(path):
    """Mark the mutants which pass the tests."""
    with open(path, encoding="utf-8") as h:
        muts = json.load(h)

    def one(k):
        m = muts[k]
        if "tests" in m:
            return
        d = copy(m, k)
        try:
            t = subprocess.run(
                ". /opt/vp/env.sh; PYTHONPATH=$PWD timeout 300 "
                "/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider "
                "tests 2>&1 | tail -1", shell=True, cwd=d, text=True,
                capture_output=True, check=False)
            m["tests"] = "65 passed" in t.stdout and \
                "failed" not in t.stdout
        finally:
            shutil.rmtree(d, ignore_errors=True)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for i, _ in enumerate(ex.map(one, range(len(muts)))):
            if i % 20 == 19:
                with open(path, "w", encoding="utf-8") as h:
                    json.dump(muts, h, indent=0)
    with open(path, "w", encoding="utf-8") as h:
        json.dump(muts, h, indent=0)
    print(sum(m["tests"] for m in muts), "pass the tests")


def checks(path, seed="1"):
    """Run checks on the mutants that passed."""
    with open(path, encoding="utf-8") as h:
        muts = json.load(h)
    for k, m in enumerate(muts):
        if not m.get("tests") or "found" in m:
            continue
        d = copy(m, k)
        t = time.time()
        m["found"] = None
        props = READER if "reference" in m["file"] else ANALYTIC \
            if "analytic" in m["file"] else SOLVER
        try:
            for p in props:
                res = subprocess.run(
                    [f"{VERIF}/check.sh", p, "--seed", seed, "--no-evidence"],
                    cwd=d, env=dict(os.environ, VERIF_REPO=d), text=True,
                    capture_output=True, check=False)
                got = re.search(r"replay=\S*-(\d+)\.json", res.stdout)
                if res.returncode:
                    m["found"] = [p, res.returncode,
                                  int(got.group(1)) if got else None]
                    break
        finally:
            shutil.rmtree(d, ignore_errors=True)
        print(k, f"{m['file']}:{m['line']}", m["what"], repr(m["old"][:70]),
              "->", repr(m["new"][:70]), m["found"] or "NOT FOUND",
              f"{time.time() - t:.0f} s", flush=True)
        with open(path, "w", encoding="utf-8") as h:
            json.dump(muts, h, indent=0)


if __name__ == "__main__":
    {"make": make, "tests": tests, "checks": checks}[sys.argv[1]](
        *sys.argv[2:])
