"""Confirm planted bugs and keep them in /verif/seeded (run by hand).

usage: plant.py SPEC.py [ID ...]      SPEC.py defines BUGS = [dict(id, property,
edits=[(file, old, new)], demo, needs, breaks)]
Each is applied in a scratch copy of /repo; kept only if the tests pass there
and the demonstration passes without and fails with it.  Then the property's
quick check is run against the copy.
"""
import concurrent.futures
import json
import os
import runpy
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = """#!/bin/bash
# Demonstration, run with cwd at the repository; exits 0 if the property holds.
export PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
export OPENBLAS_CORETYPE=Haswell PYTHONPATH="$PWD"
exec timeout 250 /opt/venv/bin/python -s "$(cd "$(dirname "$0")" && pwd)/demo.py"
"""


def sh(cmd, cwd, **kw):
    env = dict(os.environ, **kw)
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, text=True,
                          capture_output=True)


def base_lines(f):
    base = sh("git rev-list HEAD | tail -1", "/repo").stdout.strip()
    rtn = sh(f"git blame -s --root -l {base}~0 -- {f} 2>/dev/null; true",
             "/repo")
    del rtn
    return set(sh(f"git show {base}:{f}", "/repo").stdout.splitlines())


def one(bug):
    out = [f"== {bug['id']} ({bug['property']})"]
    keep = True
    d = f"/tmp/p_{bug['id']}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, symlinks=True)
    dest = os.path.join(VERIF, "seeded", bug["id"])
    try:
        touched = False
        for f, old, new in bug["edits"]:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) != 1:
                return "\n".join(out + [f"edit matches {s.count(old)} times "
                                        f"in {f}: {old[:60]!r}"])
            open(p, "w").write(s.replace(old, new))
        patch = sh("git diff", d).stdout
        orig = {}
        for line in patch.splitlines():
            if line.startswith("--- a/"):
                orig = base_lines(line[6:])
            elif line.startswith("-") and line[1:] in orig:
                touched = True
        if not touched:
            out.append("NO ORIGINAL LINE CHANGED")
            keep = False
        os.makedirs(dest, exist_ok=True)
        open(f"{dest}/patch.diff", "w").write(patch)
        open(f"{dest}/demo.sh", "w").write(SH)
        os.chmod(f"{dest}/demo.sh", 0o755)
        open(f"{dest}/demo.py", "w").write(bug["demo"].lstrip())
        json.dump({"property": bug["property"], "needs": bug["needs"],
                   "what_it_breaks": bug["breaks"]},
                  open(f"{dest}/meta.json", "w"), indent=1)
        a = sh(f"bash {dest}/demo.sh", "/repo")
        b = sh(f"bash {dest}/demo.sh", d)
        if a.returncode != 0:
            out.append(f"demo fails on clean: {a.stdout}{a.stderr}"[-600:])
            keep = False
        if b.returncode == 0:
            out.append("demo passes with the bug")
            keep = False
        else:
            out.append("demo: " + (b.stdout+b.stderr).strip()[-160:])
        t = sh(". /opt/vp/env.sh; PYTHONPATH=$PWD /opt/venv/bin/python -m "
               "pytest -q -x -p no:cacheprovider --timeout=300 tests 2>&1 | "
               "tail -4", d)
        last = t.stdout.strip().splitlines()[-1]
        if "failed" in last or "65 passed" not in last:
            out.append("tests: " + t.stdout[-400:])
            keep = False
        for prop in bug.get("checks", [bug["property"]]):
            c = sh(f"time {VERIF}/check.sh {prop} --tier quick --no-evidence "
                   "--workers 4", VERIF, VERIF_REPO=d, VERIF_SEED="1")
            vio = [x for x in c.stdout.splitlines()
                   if "VIOLATION" in x or x.startswith("  ")]
            real = [x for x in c.stderr.splitlines() if "real" in x]
            out.append(f"check {prop}: exit {c.returncode} "
                       f"{'; '.join(vio)[:300]} {real}")
            if c.returncode == 2:
                out.append((c.stdout+c.stderr)[-500:])
    finally:
        shutil.rmtree(d, ignore_errors=True)
        if not keep:
            shutil.rmtree(dest, ignore_errors=True)
            out.append("DROPPED")
    return "\n".join(out)


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    if len(sys.argv) > 2:
        bugs = [b for b in bugs if b["id"] in sys.argv[2:]]
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        for text in ex.map(one, bugs):
            print(text, flush=True)


if __name__ == "__main__":
    main()
