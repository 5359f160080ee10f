"""C04: every solve ends."""
import copy
import math

import numpy as np

from sim import bl, flows, seams
from sim.prop import Prop

# Ticks after which a solve is taken as one that never ends.  Stiff equations
# may need any number of steps: a march is cut short once a single integration
# has completed STEPS of them, because it evidently advances.
LIMIT = 12_000_000
STEPS = 800


class Advancing(Exception):
    """The march makes progress and has been watched long enough."""


def watch(world):
    """Count the completed steps of each integration."""
    seam = seams.IntegratorSeam(world).install()
    state = {"solver": None, "n": 0}

    def policy(_seam, solver):
        if state["solver"] is not solver:
            state["solver"] = solver
            state["n"] = 0
        state["n"] += 1
        if state["n"] > STEPS:
            world.probe("long march cut short")
            raise Advancing("injected: watched long enough")
    seam.arm([], policy)

VALUES = {"nan": math.nan, "inf": math.inf, "-inf": -math.inf, "zero": 0.0,
          "huge": 1e300, "tiny": 1e-300, "-huge": -1e300}
WHATS = sorted(VALUES) + ["reversed", "jump", "noise", "spike", "none",
                          "text", "array", "ValueError", "StopIteration",
                          "ZeroDivisionError", "KeyboardInterrupt"]


def ruin(env, site, fun, bads, x0):
    """Return a function which misbehaves as described by bads."""
    state = {"n": 0}
    mine = [b for b in bads if b["site"] == site]

    def call(x):
        state["n"] += 1
        val = fun(x)
        for b in mine:
            xs = np.asarray(x, dtype=float)
            if "call" in b:
                if b.get("only"):
                    if state["n"] != b["call"]:
                        continue
                elif state["n"] < b["call"]:
                    continue
            elif b["where"] == "start":
                if not np.all(xs == x0):
                    continue
            elif b["where"] == "not start":
                if np.any(xs == x0):
                    continue
            elif b["where"] == "past":
                if not np.all((xs - b["x"])*b["dir"] >= 0):
                    continue
            elif b["where"] == "window":
                if not np.all(np.abs(xs - b["x"]) <= b["w"]):
                    continue
            what = b["what"]
            env.world.fault(f"{site.split('.')[-1]} {what}")
            if what in VALUES:
                val = val*0 + VALUES[what]
            elif what == "reversed":
                val = -val
            elif what == "jump":
                val = val*b["fac"]
            elif what == "noise":
                # no smoother than a table of random numbers
                bits = np.sin(1e9*xs + 1.7)
                val = val*(1 + b["fac"]*bits)
            elif what == "spike":
                val = val + b["fac"]/np.maximum(
                    np.abs(xs - b.get("x", x0)), 1e-12)
            elif what == "none":
                return None
            elif what == "text":
                return "fast"
            elif what == "array":
                return np.ones(3)
            else:
                raise flows.EXC[what](f"injected in {site}")
        return val
    return call


def subject(world, plan):
    """March with misbehaving inputs."""
    env = flows.Env(world)
    watch(world)
    from ibl import initial_condition as ic
    out = []
    for op in plan["ops"]:
        cfg = copy.deepcopy(op["cfg"])
        x0, x1 = float(op["x0"]), float(op["x1"])
        n0 = world.ticks.total

        def act(cfg=cfg, op=op, x0=x0, x1=x1):
            kw = {}
            if cfg.get("nu") is not None:
                kw["nu"] = float(cfg["nu"])
            if cfg.get("vel") is not None:
                fs = [ruin(env, f"s0.{s}", f, op["bads"], x0) for s, f in
                      zip(("u", "du", "d2u"), flows.vel_math(cfg["vel"]))]
                n = {"u": 1, "ud": 2, "udd": 3}[cfg["vel"]["give"]]
                for key, f in list(zip(("U_e", "dU_edx", "d2U_edx2"), fs))[:n]:
                    kw[key] = f
            if cfg["cls"] == "H":
                if cfg.get("crit") is not None:
                    kw["shape_d_crit"] = float(cfg["crit"])
            elif isinstance(cfg.get("fit"), dict):
                fs = [ruin(env, f"s0.{s}", f, op["bads"], x0) for s, f in
                      zip(("shear", "shape", "shape_p"),
                          flows.fit_math(cfg["fit"]))]
                kw["data_fits"] = tuple(fs[:cfg["fit"]["n"]])
            elif cfg.get("fit"):
                kw["data_fits"] = cfg["fit"]
            obj = bl.klass(cfg["cls"])(**kw)
            if cfg.get("ic"):
                if cfg["ic"]["kind"] == "raw":
                    class Raw(ic.ManualCondition):
                        """Condition with the given values, whatever they are."""

                        def delta_m(self):
                            return float(cfg["ic"]["dm"])

                        def delta_d(self):
                            return float(cfg["ic"]["dd"])

                        def shape_d(self):
                            return float(cfg["ic"]["sd"])
                    obj.set_initial_condition(Raw(1e-3, 2e-3, 0.0))
                else:
                    obj.set_initial_condition(
                        flows.make_ic(cfg["ic"], env, "s0"))
            if cfg.get("dm") is not None:
                obj.initial_delta_m = float(cfg["dm"])
            if cfg["cls"] == "H" and cfg.get("sd") is not None:
                obj.initial_shape_d = float(cfg["sd"])
            evs = None
            if op.get("events"):
                evs = []
                for i, e in enumerate(op["events"]):
                    ev = flows.make_event(e, env, f"s0.event{i}")
                    impl = ev._call_impl
                    for b in op["bads"]:
                        if b["site"] != f"s0.event{i}":
                            continue

                        def bad(x, f, impl=impl, b=b):
                            val = impl(x, f)
                            if "x" in b and not (x - b["x"])*b["dir"] >= 0:
                                return val
                            world.fault(f"event {b['what']}")
                            if b["what"] in VALUES:
                                return val*0 + VALUES[b["what"]]
                            if b["what"] == "noise":
                                return np.sin(1e9*x)
                            return -val
                        ev._call_impl = bad
                    evs.append(ev)
            return bl.plain_result(obj.solve(x0, x1, evs))

        res = bl.guard(world, act, budget=LIMIT)
        cost = world.ticks.total - n0
        world.log("solve", res[:3] if res[0] == "exc" else res, cost)
        kind = res[1] if res[0] == "exc" else res[1]["status"]
        world.probe(f"ended with {kind}")
        world.state(cfg["cls"], tuple(sorted(
            (b["site"], b.get("where", "call"), b["what"])
            for b in op["bads"])), op["range"], kind)
        out.append(cost)
    return out


class C04(Prop):
    ID = "C04"
    QUICK = 3200
    THOROUGH = 60000
    RULE = ("A run is 1-4 solves, each of a new solver, in which up to three "
            "user-supplied objects misbehave in a drawn way at a drawn place "
            "and the range and initial values are drawn from usual and "
            "unusual ones. Non-trivial: something misbehaved or the range or "
            "a setting was unusual. Distinct by history digest.")
    STATES = ("distinct (class, misbehaving objects by place and kind, kind "
              "of range, how the solve ended)")
    REAL = ["ibl.ibl_method", "ibl.thwaites_method", "ibl.head_method",
            "ibl.initial_condition", "scipy.integrate"]
    STUB = ["user-supplied objects"]
    ASSUME = [f"a solve that has used {LIMIT} ticks (function entries and "
              "backward jumps, over 50 times the dearest usual march) does "
              f"not end; one integration that completes {STEPS} steps is "
              "cut short and taken as advancing"]

    def gen(self, rng, idx, tier):
        return {"ops": [self.one(rng) for _ in range(rng.choice([1, 2, 3, 4]))]}

    def one(self, rng):
        x0, x1 = bl.gen_range(rng)
        cls = rng.choice(["TL", "TN", "H"])
        cfg = bl.gen_cfg(rng, x0, x1, cls=cls, gives=["u", "ud", "udd"],
                         owns=["fresh"])
        op = {"cfg": cfg, "range": "usual", "bads": [], "odd": False}
        if rng.random() < 0.3:
            evs = bl.gen_events(rng, x0, x1)
            if evs:
                op["events"] = evs
        span = x1 - x0
        if rng.random() < 0.25:
            kind = rng.choice(["empty", "reversed", "nan start", "nan end",
                               "negative", "one ulp", "long", "short",
                               "both nan", "from zero", "reversed to zero"])
            op["range"] = kind
            op["odd"] = True
            if kind == "empty":
                x1 = x0
            elif kind == "reversed":
                x0, x1 = x1, x0
            elif kind == "reversed to zero":
                x0, x1 = x1, rng.choice([0.0, -1.0])
            elif kind == "nan start":
                x0 = "nan"
            elif kind == "nan end":
                x1 = "nan"
            elif kind == "both nan":
                x0 = x1 = "nan"
            elif kind == "negative":
                x0, x1 = -x1, -x0
            elif kind == "one ulp":
                x1 = math.nextafter(x0, 2*x0)
            elif kind == "long":
                x1 = x0 + 10**rng.uniform(1, 3)
            elif kind == "short":
                x1 = x0 + 10**rng.uniform(-12, -3)
            elif kind == "from zero":
                x0 = 0.0
        op["x0"], op["x1"] = x0, x1
        if rng.random() < 0.25:
            op["odd"] = True
            key = rng.choice(["nu", "dm", "sd" if cls == "H" else "dm",
                              "crit" if cls == "H" else "nu", "vel", "ic",
                              "ic", "unset"])
            if key == "vel":
                cfg["vel"] = None
            elif key == "unset":
                cfg["dm"] = cfg["sd"] = None
            elif key == "ic":
                cfg["dm"] = cfg["sd"] = None
                cfg["ic"] = rng.choice([
                    {"kind": "stag"},
                    {"kind": "raw", "dm": self.num(rng), "dd": self.num(rng),
                     "sd": self.num(rng)}])
            else:
                cfg[key] = self.num(rng)
        if rng.random() < 0.8:
            for _ in range(rng.choice([1, 1, 2, 3])):
                op["bads"].append(self.bad(rng, cls, cfg, x0, x1, span, op))
        return op

    @staticmethod
    def num(rng):
        return rng.choice(["nan", "inf", 0.0, 1e-300, 1e-30, 1e-12, 1.0,
                           1e6, 1e30, 1e300, -1.0, 0.5, 1.05, 1.1, 1.2, 2.9,
                           5.0])

    @staticmethod
    def bad(rng, cls, cfg, x0, x1, span, op):
        sites = ["s0.u", "s0.u", "s0.du", "s0.du", "s0.d2u"]
        if isinstance(cfg.get("fit"), dict):
            sites += ["s0.shear", "s0.shape", "s0.shape_p"]
        if op.get("events"):
            sites += ["s0.event0"]
        b = {"site": rng.choice(sites), "what": rng.choice(WHATS)}
        lo = 0.5 if isinstance(x0, str) else x0
        hi = 1.5 if isinstance(x1, str) else x1
        if b["site"] == "s0.event0":
            b["what"] = rng.choice(sorted(VALUES) + ["noise", "reversed"])
        where = rng.choice(["start", "not start", "past", "past", "window",
                            "everywhere", "call"])
        b["fac"] = rng.choice([0.01, 0.5, 0.1, 2.0, 10.0, -0.5, 1e3, 1e8,
                               1e-8])
        if b["what"] == "noise":
            b["fac"] = rng.choice([1e-3, 1e-2, 0.1])
        if where == "call" and b["site"] != "s0.event0":
            b["call"] = int(10**rng.uniform(0, 2.4))
            b["only"] = rng.random() < 0.4
            return b
        if where == "call":
            where = "past"
        b["where"] = where
        if where in ("past", "window"):
            b["x"] = round(lo + (hi - lo)*rng.uniform(-0.02, 1.02), 6)
            b["dir"] = 1 if hi >= lo else -1
            b["w"] = abs(hi - lo)*10**rng.uniform(-4, -0.5)
        elif b["site"] == "s0.event0":
            b["x"], b["dir"] = lo, (1 if hi >= lo else -1)
        return b

    def run(self, plan, ctx):
        ctx.world("subject", subject, plan)
        ctx.nontrivial = any(o["bads"] or o["odd"] for o in plan["ops"])

    def lists(self, plan):
        paths = [["ops"]]
        for i, op in enumerate(plan["ops"]):
            paths.append(["ops", i, "bads"])
            if op.get("events"):
                paths.append(["ops", i, "events"])
        return paths


PROP = C04()
