"""C07: queries are pure: no order, batching or ownership effects."""
import copy

import numpy as np

from sim import bl, flows
from sim.core import Violation
from sim.prop import Prop
from sim.props import c01

FORMS = ["float", "np.float64", "array", "array", "readonly", "strided",
         "reversed", "fortran", "repeat", "zero dim", "shared", "shared",
         "whole", "whole32", "int"]
WHOLE = ("whole", "whole32", "int")


def locations(op, x0, xe):
    """Return the locations asked for; [] if there are none of this form."""
    if op["form"] not in WHOLE:
        return [x0 + (xe - x0)*t for t in op["t"]]
    lo, hi = int(np.ceil(min(x0, xe))), int(np.floor(max(x0, xe)))
    if lo > hi:
        return []
    return [lo + min(int((hi - lo + 1)*t), hi - lo) for t in op["t"]]


def build(xs, form, env, what, shared):
    """Return the argument of a query which asks for the locations xs."""
    if form == "shared":
        # the caller fills one array of its own again and again
        arr = shared.setdefault(len(xs), np.empty(len(xs)))
        flows.rewrite(env, arr, xs)
        return arr
    if form == "float":
        return float(xs[0])
    if form == "int":
        return xs[0]
    if form == "np.float64":
        return np.float64(xs[0])
    if form == "zero dim":
        arr = np.array(float(xs[0]))
    elif form == "strided":
        big = np.full(2*len(xs), -77.0)
        big[::2] = xs
        env.keep(f"array behind {what}", big)
        arr = big[::2]
    elif form in WHOLE:
        arr = np.array(xs, dtype="int32" if form == "whole32" else int)
    elif form == "reversed":
        arr = np.array(xs[::-1], dtype=float)[::-1]
    else:
        arr = np.array(xs, dtype=float)
        if form == "readonly":
            arr.setflags(write=False)
    env.keep(f"argument of {what}", arr)
    return arr


def prepare(world, plan):
    """Make the solver and solve."""
    env = flows.Env(world)
    slot = bl.Slot(world, env, "s0")
    res = slot.create(copy.deepcopy(plan["cfg"]))
    if res[0] == "exc":
        return None, None, None
    res = slot.solve(plan["x0"], plan["x1"], plan.get("events"))
    if res[0] == "exc" or not res[1]["success"]:
        return None, None, None
    return env, slot, res[1]


def subject(world, plan):
    """Ask as scheduled."""
    env, slot, res = prepare(world, plan)
    if slot is None:
        return None
    xe = res["x_end"][1][0]
    x0 = plan["x0"]
    answers = []
    given = []
    shared = {}
    for i, op in enumerate(plan["ops"]):
        xs = locations(op, x0, xe)
        if not xs:
            answers.append(["none"])
            continue
        arg = build(xs, op["form"], env, f"query {i} ({op['prop']})",
                    shared)
        env.arm(op.get("faults", []))
        got = slot.query(op["prop"], arg, raw=True)
        fired = bool(env.fired)
        env.arm([])
        if fired:
            if got[0] == "ok":
                world.fail("failure of user code turned into an answer",
                           f"query {i} {op}: {bl.plain(got[1])}")
            answers.append(["fault"])
            continue
        if got[0] == "exc":
            answers.append(list(got[:3]))
            continue
        val = got[1]
        answers.append(["ok", bl.plain(val)])
        world.log(op["prop"], op["form"], answers[-1])
        world.state(plan["cfg"]["cls"], op["prop"], op["form"],
                    plan["cfg"]["vel"].get("own"), min(len(xs), 5))
        mine = op["prop"] in bl.SOL_PROPS
        if isinstance(val, np.ndarray) and mine:
            if op.get("scribble") and val.flags.writeable and not \
                    any(np.shares_memory(val, a) for _w, a, _b in env.kept):
                val[...] = -123.0    # the caller owns what it was given
                world.probe("answer overwritten by its owner")
            else:
                given.append((i, op["prop"], val, val.tobytes()))
        for j, prop, arr, was in given:
            if arr.tobytes() != was:
                world.fail("earlier answer changed",
                           f"answer {j} ({prop}) changed by query {i} {op}")
        bad = env.changed_arrays()
        if bad:
            world.fail("array of another owner changed", str(bad[:3]))
    bad = env.changed_arrays()
    if bad:
        world.fail("array of another owner changed", str(bad[:3]))
    return {"answers": answers, "xe": xe}


def single(world, plan, xe):
    """Ask for each location alone, in an undisturbed process."""
    _env, slot, _res = prepare(world, plan)
    x0 = plan["x0"]
    memo = {}
    for op in plan["ops"]:
        for x in locations(op, x0, xe):
            key = (op["prop"], x)
            if key not in memo:
                got = slot.query(op["prop"], np.array([float(x)]))
                memo[key] = got[1][1][0] if got[0] == "ok" else list(got[:3])
    got = slot.query("u_e", np.linspace(x0, xe, 9))
    speed = max(abs(v) for v in got[1][1]) if got[0] == "ok" else 0.0
    return memo, speed


class C07(Prop):
    ID = "C07"
    QUICK = 3400
    THOROUGH = 50000
    RULE = ("A run is a solve with user functions of a drawn ownership "
            "behaviour followed by 3-40 queries in drawn forms (scalar or "
            "array, order, repetition, memory layout) with answers "
            "overwritten by their owner in between; each value is compared "
            "with that of the location asked for alone in another process, "
            "and every array of another owner is compared byte by byte. "
            "Non-trivial: at least three array queries. Distinct by history "
            "digest.")
    STATES = ("distinct (class, property, form of the locations, ownership "
              "behaviour, number of locations capped at 5)")
    REAL = c01.C01.REAL[:6]
    STUB = ["user-supplied objects"]
    ASSUME = ["answers agree to 1e-10, transpiration velocity to 1e-6 (the "
              "numerical libraries may round differently for arrays)"]

    def gen(self, rng, idx, tier):
        x0, x1 = bl.gen_range(rng)
        if rng.random() < 0.3:
            # whole numbers in range
            x1 = round(x0 + rng.uniform(1.2, 4.5), 4)
        cfg = bl.gen_cfg(rng, x0, x1)
        if cfg["vel"].get("own") in ("fresh", "int") and rng.random() < 0.6:
            cfg["vel"]["own"] = rng.choice(["kept", "np0", "kept"])
        if cfg["vel"].get("give") not in ("pts", "dpts", "spline") and \
                rng.random() < 0.15:
            lo = round(max(0.05, x0), 4)
            cfg["vel"] = {"form": "ident", "give": rng.choice(
                ["u", "ud", "udd"]), "own": rng.choice(["alias", "kept"])}
            x0 = lo
        if cfg["vel"].get("own") == "kept" and cfg["cls"] == "H" \
                and rng.random() < 0.3:
            # speeds close to zero are limited inside the method
            cfg["vel"] = {"form": "const", "a": 5e-4, "give": "udd",
                          "own": "kept"}
        ops = []
        pool = [round(rng.random(), 6) for _ in range(rng.choice([2, 5, 12]))]
        pool += [0.0, 1.0]
        for _ in range(rng.choice([3, 8, 20, 40])):
            form = rng.choice(FORMS)
            n = 1 if form in ("float", "np.float64", "zero dim", "int") \
                else rng.choice([1, 2, 3, 7, 20, 60, 60, 300])
            t = [rng.choice(pool) if rng.random() < 0.6
                 else round(rng.random(), 6) for _ in range(n)]
            order = rng.choice(["any", "up", "down"])
            if form == "shared":
                n = rng.choice([1, 3, 3, 7])
                t = (t*7)[:n]
            if form == "repeat":
                t = [t[0]]*n
            elif order != "any":
                t.sort(reverse=order == "down")
            op = {"prop": rng.choice(bl.PROPS + bl.SOL_PROPS), "form": form,
                  "t": t}
            if rng.random() < 0.3:
                op["scribble"] = True
            if rng.random() < 0.08:
                op["faults"] = [{"site": "s0.*", "call": rng.choice(
                    [1, 1, 2, 3]), "times": 1, "do": rng.choice(
                        ["ValueError", "KeyboardInterrupt", "MemoryError",
                         "StopIteration", "ZeroDivisionError"])}]
            ops.append(op)
        plan = {"cfg": cfg, "x0": x0, "x1": x1, "ops": ops}
        if rng.random() < 0.2:
            evs = bl.gen_events(rng, x0, x1)
            if evs:
                plan["events"] = evs
        return plan

    def run(self, plan, ctx):
        got = ctx.world("subject", subject, plan)
        if got is None:
            return
        memo, speed = ctx.world("single", single, plan, got["xe"])
        xe, x0 = got["xe"], plan["x0"]
        big = {}
        for (prop, _x), v in memo.items():
            if isinstance(v, float) and v == v and abs(v) != np.inf:
                big[prop] = max(big.get(prop, 0.0), abs(v))
        for i, (op, ans) in enumerate(zip(plan["ops"], got["answers"])):
            want = [memo[(op["prop"], x)] for x in locations(op, x0, xe)]
            if any(isinstance(w, list) for w in want):
                continue        # refused alone as well
            if ans[0] in ("fault", "none"):
                continue
            if ans[0] != "ok":
                raise Violation("refused in this form",
                                f"query {i} {op}: {ans}\n{plan['cfg']}")
            shape, vals = ans[1]
            scalar = op["form"] in ("float", "np.float64", "zero dim",
                                    "int")
            if len(vals) != len(want) or (not scalar
                                          and shape != [len(want)]):
                raise Violation("answer of wrong size",
                                f"query {i} {op}: {shape}")
            rtol, atol = 1e-10, 0.0
            if op["prop"] in ("v_e", "du_e", "d2u_e") \
                    and plan["cfg"]["vel"].get("give") in ("u", "ud"):
                # rounding errors of differences of neighbouring velocities
                rtol = 1e-3 if op["prop"] == "v_e" else 1e-6
                atol = rtol*big.get(op["prop"], 0.0) + 1e-8
                if op["prop"] == "d2u_e":
                    atol += 3e-6*speed
            elif op["prop"] == "v_e":
                rtol, atol = 1e-9, 1e-9*big.get("v_e", 0.0)
            elif op["prop"] == "tau_w":         # zero at separation
                atol = 1e-10*big.get("tau_w", 0.0) + 1e-12
            d = bl.differ(want, vals, rtol=rtol, atol=atol)
            if d:
                raise Violation("answer depends on how it is asked for",
                                f"query {i} {op}: alone vs here {d}\n"
                                f"{plan['cfg']}")
        ctx.nontrivial = sum(len(o["t"]) > 1 for o in plan["ops"]) >= 3

    def lists(self, plan):
        out = [["ops"]]
        if plan.get("events"):
            out.append(["events"])
        return out + [["ops", i, "t"] for i, o in enumerate(plan["ops"])
                      if len(o["t"]) > 1]


PROP = C07()
