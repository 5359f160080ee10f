"""Command line of the checks."""
import argparse
import collections
import hashlib
import importlib
import json
import os
import re
import subprocess
import sys
import time
import warnings

from sim import core

KNOWN_FILE = os.path.join(core.VERIF, "known-findings.txt")


def load_known(prop_id):
    """Return {signature: text} of the recorded, unrepaired findings."""
    known = {}
    if os.path.exists(KNOWN_FILE):
        with open(KNOWN_FILE, encoding="utf8") as f:
            for line in f:
                m = re.match(r"finding: property=(\S+) signature=(\S+) (.*)",
                             line)
                if m and m.group(1) == prop_id:
                    known[m.group(2)] = m.group(3).strip()
    return known


def signature(violation):
    """Identify what exactly failed, for the known findings."""
    return violation["kind"].replace(" ", "_")


def preload():
    """Import everything before any process is forked; call nothing."""
    warnings.simplefilter("ignore")
    sys.path.insert(0, core.REPO)
    from sim import locks, points
    import numpy                       # noqa: F401
    import scipy.integrate             # noqa: F401
    import scipy.interpolate           # noqa: F401
    import scipy.optimize              # noqa: F401
    import importlib.resources         # noqa: F401
    import copy                        # noqa: F401
    import tempfile                    # noqa: F401
    locks.install()
    try:
        importlib.import_module("ibl")
        for name in ("ibl_method", "thwaites_method", "head_method",
                     "initial_condition", "skin_friction", "typing",
                     "analytic", "reference"):
            importlib.import_module("ibl." + name)
    except Exception as exc:  # pylint: disable=broad-except
        raise core.HarnessError(f"cannot import ibl: {exc!r}") from exc
    points.collect()
    where = os.path.realpath(sys.modules["ibl"].__file__)
    if not where.startswith(os.path.realpath(core.REPO) + os.sep):
        raise core.HarnessError(f"wrong ibl imported: {where}")


def tree_id():
    """Identify the code under test."""
    sha = hashlib.sha256()
    for base, dirs, names in sorted(os.walk(os.path.join(core.REPO, "ibl"))):
        dirs.sort()
        for name in sorted(names):
            if name.endswith(".py"):
                with open(os.path.join(base, name), "rb") as f:
                    sha.update(f.read())
    return sha.hexdigest()[:16]


def write_replay(prop, seed, idx, plan, res):
    """Write the replay file of a violation and return its path."""
    folder = os.path.join(core.VERIF, "replays")
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, f"{prop.ID}-{seed}-{idx}.json")
    with open(path, "w", encoding="utf8") as f:
        json.dump({"property": prop.ID, "seed": seed, "run": idx,
                   "violation": res["violation"], "plan": plan,
                   "digest": res["digest"], "tree": tree_id(),
                   "trace": res.get("tails", {})}, f, indent=1)
        f.write("\n")
    return path


def do_replay(prop, path):
    """Execute a replay file; exit 1 if it fails in the recorded way."""
    with open(path, encoding="utf8") as f:
        rec = json.load(f)
    res = core.execute(prop, rec["plan"])
    if res["error"]:
        print("ERROR", res["error"])
        return 2
    if res["violation"] is None:
        print(f"replay of {path}: property {prop.ID} holds")
        return 0
    same = (res["violation"]["kind"] == rec["violation"]["kind"]
            and res["digest"] == rec["digest"])
    print(f"kind: {res['violation']['kind']}\n{res['violation']['detail']}")
    print("digest " + ("equal to" if same else "differs from")
          + " the recorded one")
    print(f"VIOLATION property={prop.ID} replay={path}")
    return 1


def fresh_replay(prop, path):
    """Replay in a new interpreter; True if it fails identically."""
    cmd = [os.path.join(core.VERIF, "check.sh"), prop.ID, "--replay", path]
    r = subprocess.run(["bash"] + cmd, capture_output=True, text=True,
                       timeout=400, check=False)
    return r.returncode == 1 and "digest equal to" in r.stdout


def explicit(prop, plan, kind):
    """Return plan with all its decisions written out, if that fails too."""
    try:
        new = json.loads(json.dumps(prop.explicit(plan)))
        res = core.execute(prop, new)
    except Exception:  # pylint: disable=broad-except
        return plan
    if res["violation"] and res["violation"]["kind"] == kind:
        return new
    return plan


def main():
    """Run a check."""
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--first", type=int, default=0)
    ap.add_argument("--workers", type=int, default=0)
    ap.add_argument("--replay")
    ap.add_argument("--digests", help="write digest of each run to file")
    ap.add_argument("--keep-going", action="store_true")
    ap.add_argument("--show", type=int, help="print plan of one run")
    ap.add_argument("--no-evidence", action="store_true")
    args = ap.parse_args()
    if args.tier not in ("quick", "thorough"):
        args.tier = "quick"
    t_start = time.monotonic()
    try:
        preload()
    except core.HarnessError as exc:
        print("ERROR", exc)
        return 2
    if args.prop == "setup":
        print(f"setup: ibl imported from {core.REPO}, nothing to build")
        return 0
    module = importlib.import_module("sim.props." + args.prop.lower())
    prop = module.PROP
    if args.replay:
        return do_replay(prop, args.replay)
    if args.show is not None:
        plan = core.make_plan(prop, args.seed, args.show, args.tier)
        print(json.dumps(plan, indent=1))
        res = core.execute(prop, plan)
        res["states"] = len(res["states"])
        print(json.dumps(res, indent=1, default=str))
        return 0

    n_runs = args.runs or (prop.QUICK if args.tier == "quick"
                           else prop.THOROUGH)
    workers = args.workers or max(1, min(8, os.cpu_count() or 1))
    print(f"{prop.ID}: seed={args.seed} tier={args.tier} runs={n_runs} "
          f"workers={workers} tree={tree_id()}", flush=True)
    known = load_known(prop.ID)
    limit = 840.0 if args.tier == "quick" else 6 * 3600.0

    faults = collections.Counter()
    probes = collections.Counter()
    states = set()
    keys = set()
    samples = {}
    tot = collections.Counter()
    march = 0.0
    bad = {}
    errors = {}
    found_known = {}
    digests = {}
    slow = []

    def on_result(idx, res):
        nonlocal march
        if res.get("error"):
            errors[idx] = res["error"]
            return
        digests[idx] = res["digest"]
        slow.append((res["t_run"], idx))
        tot["runs"] += 1
        tot["ticks"] += res["ticks"]
        tot["events"] += res["events"]
        tot["worlds"] += res["worlds"]
        march += res["march"]
        faults.update(res["faults"])
        probes.update(res["probes"])
        states.update(res["states"])
        if res["nontrivial"]:
            tot["nontrivial"] += 1
            keys.add(res["key"] or res["digest"])
            if idx not in samples and (len(samples) < 3
                                       or idx < max(samples)):
                samples[idx] = None
                while len(samples) > 3:
                    del samples[max(samples)]
        if res["violation"] is not None:
            sig = signature(res["violation"])
            if sig in known:
                found_known[sig] = idx
            else:
                bad[idx] = res

    timed_out = False

    def stop():
        nonlocal timed_out
        if time.monotonic() - t_start > limit:
            timed_out = True
            return True
        if args.keep_going:
            return False
        return bool(bad) or len(errors) > 3

    pool = core.Pool(prop, args.seed, args.tier, workers)
    try:
        pool.run(range(args.first, args.first + n_runs), on_result, stop)
    finally:
        pool.close()
    t_search = time.monotonic() - t_start

    if args.digests:
        with open(args.digests, "w", encoding="utf8") as f:
            for idx in sorted(digests):
                f.write(f"{idx} {digests[idx]}\n")

    if not args.no_evidence:
        rate = tot["runs"] / t_search * 3600 if t_search else 0
        evidence = {
            "property": prop.ID, "tier": args.tier, "seed": args.seed,
            "level": prop.LEVEL,
            "coverage": {
                "evaluations": tot["runs"],
                "distinct_nontrivial": len(keys),
                "rule": prop.RULE,
                "samples": [core.make_plan(prop, args.seed, i, args.tier)
                            for i in sorted(samples)],
                "nontrivial_runs": tot["nontrivial"],
                "simulated_runs_per_hour": round(rate),
                "seeds_per_hour": round(rate),
                "worlds_forked": tot["worlds"],
                "simulated_time_ticks": tot["ticks"],
                "simulated_march_distance": round(march, 6),
                "history_events": tot["events"],
                "faults_fired_by_kind": dict(sorted(faults.items())),
                "rare_conditions_hit": dict(sorted(probes.items())),
                "distinct_states_or_interleavings": len(states),
                "states_measure": getattr(prop, "STATES", ""),
                "components_real": prop.REAL,
                "components_stub": prop.STUB,
                "workers": workers,
                "runs_ended_in_harness_error": len(errors),
                "tree": tree_id(),
            },
            "assumptions": prop.ASSUME,
            "wall_s": round(time.monotonic() - t_start, 2),
            "violations": len(bad),
        }
        os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(core.VERIF, "evidence", prop.ID + ".json"),
                  "w", encoding="utf8") as f:
            json.dump(evidence, f, indent=1)
            f.write("\n")

    slow.sort(reverse=True)
    print(f"runs={tot['runs']} nontrivial={tot['nontrivial']} "
          f"distinct={len(keys)} states={len(states)} ticks={tot['ticks']} "
          f"wall={t_search:.1f}s slowest={slow[0] if slow else None}")
    print("faults:", json.dumps(dict(sorted(faults.items()))))
    print("probes:", json.dumps(dict(sorted(probes.items()))))
    for sig in sorted(found_known):
        print(f"KNOWN-FINDING: property={prop.ID} {known[sig]}")
    if args.keep_going and errors:
        print("errors:", {i: e[-600:] for i, e in errors.items()})
    if bad:
        if args.keep_going:
            cnt = collections.Counter(r["violation"]["kind"]
                                      for r in bad.values())
            for k, n in cnt.most_common():
                first = min(i for i, r in bad.items()
                            if r["violation"]["kind"] == k)
                print(f"  {n}x {k} (first run {first})")
        idx = min(bad)
        plan = core.make_plan(prop, args.seed, idx, args.tier)
        kind = bad[idx]["violation"]["kind"]
        if hasattr(prop, "explicit"):
            plan = explicit(prop, plan, kind)
        small, n_exec = core.minimise(prop, plan, kind)
        res = core.execute(prop, small)
        if res["violation"] is None or res["violation"]["kind"] != kind:
            small, res = plan, core.execute(prop, plan)
        if res["violation"] is None:
            print(f"ERROR run {idx} reported {kind} but did not repeat")
            return 2
        path = write_replay(prop, args.seed, idx, small, res)
        same = fresh_replay(prop, path)
        print(f"run {idx}: {res['violation']['kind']} "
              f"(minimised with {n_exec} executions, replay in a new process "
              f"{'identical' if same else 'NOT identical'})")
        print(res["violation"]["detail"])
        print(f"VIOLATION property={prop.ID} replay={path}")
        return 1
    if errors:
        idx = min(errors)
        print(f"ERROR in {len(errors)} run(s), first {idx}: {errors[idx]}")
        return 2
    if timed_out:
        print("ERROR wall limit reached before all runs were done")
        return 2
    print(f"OK property={prop.ID} held in all {tot['runs']} runs")
    return 0


if __name__ == "__main__":
    sys.exit(main())
