"""C02: a failed solve reports its cause and leaves nothing half done."""
import copy

from sim import bl, flows, hist, seams
from sim.core import Violation
from sim.prop import Prop


def surfaced(res, fired):
    """True if one of the fired exceptions is what the caller sees."""
    if res[0] != "exc":
        return False
    for _i, site, do in fired:
        for name, text in res[3]:
            if name == do and text.startswith("injected"):
                return True
    return False


def subject(world, plan):
    """Optional good solve, failing solves, queries, then the retry."""
    env = flows.Env(world)
    seam = seams.IntegratorSeam(world).install()
    slot = bl.Slot(world, env, "s0")
    res = slot.create(copy.deepcopy(plan["cfg"]), in_ctor=plan["ctor"])
    if res[0] == "exc":
        return {"create": list(res[:3])}
    before = None
    xs = []
    if plan.get("first"):
        out = slot.outcome(plan["x0"], plan["first"]["x1"], None)
        if "obs" in out:
            before, xs = out["obs"], out["xs"]
            world.probe("solution existed before the failure")
    n_fired = 0
    for k, att in enumerate(plan["ops"]):
        env.arm(att.get("faults", []))
        seam.arm(att.get("seam", []))
        res = slot.solve(att.get("x0", plan["x0"]),
                         att.get("x1", plan["x1"]),
                         att.get("events"), mode=att.get("mode", "list"))
        fired = list(env.fired) + list(seam.fired)
        steps = seam.steps
        env.arm([])
        seam.arm([])
        ok = res[0] == "ok" and res[1]["success"]
        raised = [f for f in fired if f[2] in flows.EXC]
        nans = [f for f in fired if f[2] == "nan"]
        failed = [f for f in fired if f[2] == "fail"]
        if fired:
            n_fired += 1
        where = f"attempt {k}: fired {fired[:4]} result {res[:3]}"
        if raised:
            # first exception decides: nothing is called after it
            if ok:
                world.fail("failure turned into success", where)
            if res[0] == "exc" and not surfaced(res, raised):
                world.fail("cause of failure is lost", where)
        elif failed:
            if ok:
                world.fail("integrator failure turned into success", where)
        elif nans:
            if ok:
                att_f = att["faults"][nans[0][0]]
                xe = res[1]["x_end"][1][0]
                lim = min(att["faults"][n[0]]["x"] for n in nans)
                if xe > lim + 1e-9*abs(lim):
                    world.fail("NaN velocity turned into success",
                               where + f" NaN from {lim}")
                world.probe("stopped before the NaN")
                del att_f
        world.state(plan["cfg"]["cls"], tuple(sorted({f[1:] for f in fired})),
                    min(steps, 12), ok, before is not None)
        if ok:
            xe = res[1]["x_end"][1][0]
            xa = att.get("x0", plan["x0"])
            xs = [xa + (xe - xa)*j/4 for j in range(5)]
            before = slot.observe(xs)
            continue
        # not completed: refuse, or the last completed solution
        if not xs:
            look = [plan["x0"] + (plan["x1"] - plan["x0"])*j/4
                    for j in range(5)]
            now = slot.observe(look, bl.SOL_PROPS)
        else:
            now = slot.observe(xs)
        for p in bl.SOL_PROPS:
            if now[p][0] == "exc":
                continue
            if before is None:
                world.fail("answers without a completed solve",
                           f"{where}: {p} answers {now[p]}")
            d = bl.differ(before[p], now[p], rtol=1e-10)
            if d:
                world.fail("answers for a solve that did not complete",
                           f"{where}: {p} {d}")
            world.probe("old solution kept after failure")
    final = slot.outcome(plan["x0"], plan["x1"], plan.get("events"),
                         mode=plan.get("mode", "list"))
    if env.changed_arrays():
        world.fail("array of the user changed", str(env.changed_arrays()[:3]))
    return {"final": final, "settings": slot.settings(), "fired": n_fired}


def twin(world, plan):
    """The same without any failure."""
    env = flows.Env(world)
    slot = bl.Slot(world, env, "s0")
    res = slot.create(copy.deepcopy(plan["cfg"]), in_ctor=plan["ctor"])
    if res[0] == "exc":
        return {"create": list(res[:3])}
    final = slot.outcome(plan["x0"], plan["x1"], plan.get("events"),
                         mode=plan.get("mode", "list"))
    return {"final": final, "settings": slot.settings()}


class C02(Prop):
    ID = "C02"
    QUICK = 2600
    THOROUGH = 40000
    RULE = ("A run is a solver, optionally a completed solve, 1-3 solves with "
            "a fault placed at a chosen call, location, integrator step or "
            "interpolant, queries after each, and a fault-free repetition "
            "compared with a process that never failed. Non-trivial: at "
            "least one fault fired inside a solve. Distinct by history "
            "digest.")
    STATES = ("distinct (class, fired faults by site and kind, integrator "
              "step count at failure capped at 12, outcome, earlier solution)")
    REAL = ["ibl.ibl_method", "ibl.thwaites_method", "ibl.head_method",
            "ibl.initial_condition", "scipy.integrate (real steps around the "
            "injected ones)"]
    STUB = ["user-supplied objects", "failing step and interpolant of "
            "scipy's Runge-Kutta integrator"]
    ASSUME = ["NaN faults are a velocity that is NaN from a location on; "
              "transient NaN at a single evaluation is not a failure, the "
              "integrator repeats the step"]

    def gen(self, rng, idx, tier):
        x0, x1 = bl.gen_range(rng)
        cls = rng.choice(["TL", "TN", "H"])
        gives = ["u", "ud", "udd", "udd", "udd", "uobj", "udobj"]
        cfg = bl.gen_cfg(rng, x0, x1, cls=cls, gives=gives)
        if rng.random() < 0.2:
            cfg["ic"] = {"kind": "user", "dm": 0.2, "dd": 0.3,
                         "sd": bl.rnd(rng, 1.35, 1.7, 3)}
            cfg["dm"] = None
            cfg["sd"] = None
        plan = {"cfg": cfg, "x0": x0, "x1": x1,
                "ctor": rng.choice([["nu", "vel", "fit", "crit"], ["nu"],
                                    []])}
        if rng.random() < 0.55:
            plan["first"] = {"x1": round(x0 + (x1 - x0)
                                         * rng.choice([1.0, 0.5, 0.8]), 5)}
        evs = bl.gen_events(rng, x0, x1)
        if evs and rng.random() < 0.6:
            plan["events"] = evs
            plan["mode"] = rng.choice(["list", "single"])
        ops = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            att = {}
            if rng.random() < 0.6 and plan.get("events"):
                att["events"] = copy.deepcopy(plan["events"])
                att["mode"] = plan["mode"]
            elif rng.random() < 0.3:
                att["events"] = bl.gen_events(rng, x0, x1, n=1)
            r = rng.random()
            if r < 0.22:
                att["seam"] = [{"step": int(10**rng.uniform(0, 1.4)),
                                "do": rng.choice(["fail", "fail",
                                                  "MemoryError",
                                                  "KeyboardInterrupt",
                                                  "ValueError"])}]
            elif r < 0.3:
                att["seam"] = [{"dense": int(10**rng.uniform(0, 1.2)),
                                "do": rng.choice(["MemoryError",
                                                  "KeyboardInterrupt"])}]
            elif r < 0.5:
                att["faults"] = [
                    {"site": rng.choice(["s0.u", "s0.du"]),
                     "x": round(x0 + (x1 - x0)*rng.uniform(0.0, 1.0), 5),
                     "dir": 1, "do": "nan", "times": -1}]
            elif r < 0.6 and att.get("events"):
                att["faults"] = [
                    {"site": rng.choice(["s0.event0_info", "s0.event*",
                                         "s0.event0_info"]),
                     "call": rng.choice([1, 1, 2]), "times": -1,
                     "do": rng.choice(["ValueError", "MemoryError",
                                       "KeyboardInterrupt", "KeyError"
                                       if False else "RuntimeError"])}]
            else:
                att["faults"] = hist.gen_faults(
                    rng, "s0", x0, x1, cls, n=1,
                    exc=["ValueError", "TypeError", "ZeroDivisionError",
                         "StopIteration", "MemoryError", "KeyboardInterrupt",
                         "RuntimeError", "FloatingPointError", "IndexError",
                         "AttributeError", "AssertionError", "OSError",
                         "GeneratorExit"])
            ops.append(att)
        for att in ops:
            r = rng.random()
            if r < 0.3:
                # attempt over part of the range, or beyond it
                att["x1"] = round(x0 + (x1 - x0)*rng.choice(
                    [0.2, 0.4, 0.6, 1.3]), 5)
            elif r < 0.45:
                att["x0"] = round(x0 + (x1 - x0)*rng.uniform(0.05, 0.6), 5)
        plan["ops"] = ops
        return plan

    def run(self, plan, ctx):
        got = ctx.world("subject", subject, plan)
        want = ctx.world("twin", twin, plan)
        if "create" in got or "create" in want:
            d = bl.differ(want.get("create"), got.get("create"))
            if d:
                raise Violation("construction differs", d)
            return
        d = bl.differ(want["final"], got["final"], rtol=1e-10)
        if d:
            raise Violation("repetition differs from undisturbed solve", d)
        d = bl.differ(want["settings"], got["settings"], rtol=1e-12)
        if d:
            raise Violation("failure changed the settings", d)
        ctx.nontrivial = got["fired"] > 0

    def lists(self, plan):
        paths = [["ops"]]
        if plan.get("events"):
            paths.append(["events"])
        for i, op in enumerate(plan["ops"]):
            if op.get("events"):
                paths.append(["ops", i, "events"])
        return paths

    def simpler(self, plan):
        def no_first(p):
            p.pop("first", None)
            return p

        def plain_vel(p):
            p["cfg"]["vel"]["own"] = "fresh"
            return p
        return [no_first, plain_vel]


PROP = C02()
