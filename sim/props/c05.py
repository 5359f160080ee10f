"""C05: a refused or failed change of settings changes nothing."""
from sim import bl, flows, hist
from sim.core import Violation
from sim.prop import Prop


def execute(world, plan, skip):
    """Execute the history, with (skip empty) or without its refused calls.

    Return list of (index, what, outcome) of everything a user can see, and
    the indices of the calls that were refused.
    """
    h = hist.History(world)
    seen = []
    refused = []
    n_sol = 0
    for i, op in enumerate(plan["ops"]):
        slot = h.slots.get(op.get("slot"))
        if op["op"] == "bad":
            if slot is None:
                continue
            if skip is None:
                had = getattr(slot.obj, "_solution", None) is not None
                res = h.do(op)
                if res[0] == "ok":
                    # not refused, so this property does not speak of it
                    world.probe(f"not refused: {op['key']} {op['val']}")
                    return {"seen": seen, "refused": refused, "until": i}
                refused.append(i)
                world.fault("refused " + op["key"]
                            + (" (user code fails)" if op.get("exc") else ""))
                world.probe("refused with a solution in place" if had
                            else "refused without a solution")
                world.state(slot.cfg["cls"], op["key"], op["val"],
                            op.get("exc"), had, i > 3)
            elif i not in skip:
                return {"seen": seen, "refused": [], "until": i}
            seen.append([i, "settings", slot.settings()])
            x0, x1 = plan["ranges"][op["slot"]]
            xs = [x0 + (x1 - x0)*k/3 for k in range(4)]
            if getattr(slot, "solved", None):
                xe = slot.solved[2]
                xs = [x0 + (xe - x0)*k/3 for k in range(4)]
            seen.append([i, "answers", slot.observe(xs)])
            continue
        res = h.do(op)
        if res is None:
            continue
        if op["op"] == "solve" and res[0] == "ok":
            n_sol += 1
        seen.append([i, op["op"], list(res[:2])])
    if h.env.changed_arrays():
        world.fail("array of the user changed", str(h.env.changed_arrays()))
    return {"seen": seen, "refused": refused, "until": len(plan["ops"]),
            "solves": n_sol}


def twin(world, plan, refused, until):
    """The same history as if the refused calls had never been made."""
    cut = dict(plan, ops=plan["ops"][:until])
    return execute(world, cut, refused)


class C05(Prop):
    ID = "C05"
    QUICK = 2600
    THOROUGH = 50000
    RULE = ("A run is a history of settings, solves and queries on one or "
            "two solvers with calls in between that are refused because of "
            "their argument or because user code they run raises. All that "
            "is visible afterwards (settings, all properties, later solves) "
            "is compared with a process in which those calls were not made. "
            "Non-trivial: a call was refused and something was observed "
            "after it. Distinct by history digest.")
    STATES = ("distinct (class, refused setting and argument, exception of "
              "user code, solution present, early or late)")
    REAL = ["ibl.ibl_method", "ibl.thwaites_method", "ibl.head_method",
            "ibl.initial_condition", "scipy.interpolate", "scipy.integrate"]
    STUB = ["user-supplied objects"]
    ASSUME = ["a call which is accepted is not judged here (C10)"]

    def gen(self, rng, idx, tier):
        n = rng.choice([1, 2])
        ops, cfgs, ranges = hist.gen_history(
            rng, n, rng.choice([1, 2, 4, 6]), bad=False,
            faults=rng.random() < 0.3)
        ops = [o for o in ops if o["op"] != "analytic"]
        # place refused calls
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            at = rng.randrange(1, len(ops) + 1)
            cfg = None
            known = {}
            for o in ops[:at]:
                if o["op"] == "new":
                    known[o["slot"]] = dict(o["cfg"])
                elif o["op"] == "set":
                    hist.model_set(known[o["slot"]], o["key"], o["val"])
            name = rng.choice(sorted(known))
            cfg = known[name]
            op = hist.gen_bad(rng, cfg, solver_only=True) \
                if rng.random() < 0.6 else hist.gen_evil(rng, cfg)
            op["slot"] = name
            ops.insert(at, op)
        # each solver is used at the end
        for name in sorted(cfgs):
            x0, x1 = ranges[name]
            if rng.random() < 0.8:
                ops.append({"op": "solve", "slot": name, "x0": x0, "x1": x1})
            for _ in range(rng.choice([1, 2])):
                ops.append({"op": "query", "slot": name,
                            "prop": rng.choice(bl.PROPS),
                            "x": round(x0 + (x1 - x0)*rng.random()*0.5, 5)})
        return {"ops": ops, "ranges": {k: list(v) for k, v in ranges.items()}}

    def run(self, plan, ctx):
        got = ctx.world("subject", execute, plan, None)
        want = ctx.world("twin", twin, plan, got["refused"], got["until"])
        for a, b in zip(want["seen"], got["seen"]):
            d = bl.differ(a, b, rtol=1e-12)
            if d:
                raise Violation(
                    "refused call left its mark",
                    f"operation {b[0]} ({b[1]}): never made vs refused: {d}\n"
                    f"refused {[plan['ops'][i] for i in got['refused']]}")
        if len(want["seen"]) != len(got["seen"]):
            raise Violation("refused call left its mark", "different length")
        ctx.nontrivial = bool(got["refused"])


PROP = C05()
