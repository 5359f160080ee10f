"""Run the quick checks against the planted bugs (run by hand).

usage: hunt.py [--seed S] [ID ...]     prints which are found, and in which run
"""
import os
import re
import shutil
import subprocess
import sys
import json
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    args = sys.argv[1:]
    seed = "1"
    if args[:1] == ["--seed"]:
        seed = args[1]
        args = args[2:]
    top = os.path.join(VERIF, "seeded")
    for name in args or sorted(os.listdir(top)):
        d = f"/tmp/h_{name}"
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree("/repo", d, symlinks=True)
        try:
            subprocess.run(["git", "apply", f"{top}/{name}/patch.diff"],
                           cwd=d, check=True)
            with open(f"{top}/{name}/meta.json", encoding="utf-8") as f:
                prop = json.load(f)["property"]
            t = time.time()
            res = subprocess.run(
                [f"{VERIF}/check.sh", prop, "--seed", seed, "--no-evidence"],
                cwd=d, env=dict(os.environ, VERIF_REPO=d), text=True,
                capture_output=True, check=False)
            m = re.search(r"VIOLATION property=\S+ replay=\S*-(\d+)\.json",
                          res.stdout)
            print(f"{name:32s} {prop} exit {res.returncode} "
                  f"{'run ' + m.group(1) if m else 'MISSED'} "
                  f"{time.time() - t:.0f} s", flush=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)


main()
