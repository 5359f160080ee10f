"""C06: an answer never mixes two configurations."""
import copy

import numpy as np

from sim import bl, hist
from sim.core import Violation
from sim.prop import Prop
from sim.props import c01


def ask(world, slot, snap, picks, where):
    """Ask for solution properties; refuse or answer for the solved set-up."""
    n_ok = 0
    for prop, k, form in picks:
        xs = snap["xs"]
        x = xs[k % len(xs)] if form == "one" else np.array(xs)
        res = slot.query(prop, x)
        world.log("ask", slot.name, prop, k, form, res[:2])
        if res[0] == "exc":
            world.probe("refused")
            continue
        n_ok += 1
        want = snap["obs"][prop]
        if want[0] != "ok":
            world.fail("answer appeared", f"{where}: {prop} was {want}")
        got = res[1][1]
        ref = want[1][1]
        if form == "one":
            ref = [ref[k % len(xs)]]
        rtol, atol = 1e-10, 0.0
        if prop == "v_e":
            # numerically differenced velocities round differently in arrays
            rtol = 1e-3 if snap["cfg"]["vel"].get("give") == "u" else 1e-6
            atol = rtol*max([abs(v) for v in want[1][1] if v == v] + [0.0])
        d = bl.differ([float(v) for v in ref], got, rtol=rtol, atol=atol)
        if d:
            world.fail("answer mixes two configurations",
                       f"{where}: {prop} at {x}: {d}\nsolved with "
                       f"{snap['cfg']}\nset now {slot.cfg}")
        world.probe("answered as solved")
    return n_ok


def subject(world, plan):
    """Execute the history and ask after every operation."""
    h = hist.History(world)
    snaps = {}
    solved = []
    changed = 0
    for i, op in enumerate(plan["ops"]):
        name = op.get("slot")
        if op["op"] == "new":
            snaps.pop(name, None)
        res = h.do(op)
        if res is None:
            continue
        slot = h.slots.get(name)
        if op["op"] == "solve" and res[0] == "ok" and res[1]["success"]:
            xe = res[1]["x_end"][1][0]
            xs = [op["x0"] + (xe - op["x0"])*k/4 for k in range(5)]
            snaps[name] = {"xs": xs, "obs": slot.observe(xs),
                           "cfg": copy.deepcopy(slot.cfg), "res": res[1],
                           "op": {"x0": op["x0"], "x1": op["x1"]}}
            solved.append(dict(snaps[name]))
        if op["op"] in ("set", "bad", "solve", "scribble") \
                and name in snaps:
            changed += op["op"] == "set"
            kind = (op["op"], op.get("key"), bool(op.get("faults")),
                    res[0])
            n = ask(world, slot, snaps[name], plan["asks"][i],
                    f"after operation {i} {op}")
            world.state(slot.cfg["cls"], kind, n > 0)
        for other in sorted(snaps):
            if other != name and other in h.slots and plan["asks"][i]:
                ask(world, h.slots[other], snaps[other],
                    plan["asks"][i][:1],
                    f"other solver after operation {i} {op}")
    if h.env.changed_arrays():
        world.fail("array of the user changed", str(h.env.changed_arrays()))
    return {"solved": solved, "changed": changed}


class C06(Prop):
    ID = "C06"
    QUICK = 2600
    THOROUGH = 50000
    RULE = ("A run is a history of solves (some failing by injected faults), "
            "settings, refused settings and queries on 1-2 solvers; after "
            "every operation drawn solution properties are asked for and "
            "must be refused or equal those recorded when the solve "
            "completed, which in turn are compared with the reference model. "
            "Non-trivial: a setting changed after a completed solve. "
            "Distinct by history digest.")
    STATES = ("distinct (class, operation and setting after the solve, "
              "faults, its outcome, answered or refused)")
    REAL = c01.C01.REAL[:5]
    STUB = ["user-supplied objects"]
    ASSUME = ["edge velocity queries report the setting, not the solution"]

    def gen(self, rng, idx, tier):
        n = rng.choice([1, 1, 2])
        ops, cfgs, ranges = hist.gen_history(
            rng, n, rng.choice([3, 5, 8, 12]), faults=True,
            bad=rng.random() < 0.5, events=rng.random() < 0.3)
        head = [o for o in ops if o["op"] == "new"][:n]
        rest = [o for o in ops[n:] if o["op"] != "analytic"]
        first = []
        for name in sorted(cfgs):
            x0, x1 = ranges[name]
            first.append({"op": "solve", "slot": name, "x0": x0, "x1": x1})
        ops = head + first + rest
        asks = [[[rng.choice(bl.SOL_PROPS), rng.randrange(5),
                  rng.choice(["one", "all"])]
                 for _ in range(rng.choice([1, 2, 4]))] for _ in ops]
        return {"ops": ops, "asks": asks}

    def run(self, plan, ctx):
        got = ctx.world("subject", subject, plan)
        for s in got["solved"][:3]:
            cfg = s["cfg"]
            fin = dict(s["op"], slot="s0")
            d = c01.check_reference(cfg, fin, {"solve": ["ok", s["res"]],
                                               "obs": s["obs"],
                                               "xs": s["xs"]})
            if d:
                raise Violation("solution is not that of its configuration",
                                f"{d}\n{cfg}")
        ctx.nontrivial = got["changed"] > 0

    def lists(self, plan):
        return []

    def simpler(self, plan):
        out = []
        for i in reversed(range(len(plan["ops"]))):
            def drop(p, i=i):
                del p["ops"][i]
                del p["asks"][i]
                return p
            out.append(drop)
        for i in range(len(plan["ops"])):
            def calm(p, i=i):
                p["ops"][i].pop("faults", None)
                p["ops"][i].pop("events", None)
                p["asks"][i] = p["asks"][i][:1]
                return p
            out.append(calm)
        return out


PROP = C06()
