"""C19: user functions may use the library while it calls them."""
import copy
import gc

from sim import bl, disk, hist, script, simil
from sim.core import Violation
from sim.prop import Prop
from sim.props import c18

BAD = (0, -1.0, -7, "nan", "x", -0.4, 0.7)


class Nest:
    """Carries out operations from inside the user's functions."""

    def __init__(self, world, stage):
        self.world = world
        self.stage = stage
        self.todo = []           # [operation, site, calls left to wait]
        self.out = {}
        self.depth = 0
        stage.env.hook = self.hook

    def hook(self, site):
        """A user function is being called."""
        for item in list(self.todo):
            op, want, left = item
            if site != want and not (want.endswith("*")
                                     and site.startswith(want[:-1])):
                continue
            item[2] -= 1
            if left > 1:
                continue
            self.todo.remove(item)
            self.inner(op, site)

    def inner(self, op, site):
        """Use the library from inside a user function."""
        env, ticks = self.stage.env, self.world.ticks
        keep = (env.armed, env.fired, self.todo, ticks._left)
        env.armed, env.fired = [], []
        self.depth += 1
        try:
            self.todo = []
            self.step(op)
        finally:
            self.depth -= 1
            env.armed, env.fired, self.todo = keep[:3]
            ticks.budget(keep[3])
        self.world.probe("used from inside a user function")
        if self.depth:
            self.world.probe("and from inside that again")
        self.world.state(site.split(".")[-1], op["k"],
                         op.get("op", op.get("do")),
                         op.get("prop", op.get("key", "")), self.depth,
                         self.out[op["id"]] and self.out[op["id"]][0])

    def step(self, op):
        """Carry out an operation and those inside of it."""
        late = []
        if op.get("inside"):
            self.todo = [[o, o["site"], o["call"]] for o in op["inside"]]
        res = self.stage.do(op)
        late, self.todo = self.todo, []
        self.out[op["id"]] = None if res is None else list(res[:3])
        self.world.log(op["id"], self.out[op["id"]])
        for o, _site, _left in late:        # was not called that often
            if o.get("own"):
                self.out[o["id"]] = "late"
            else:
                self.step(o)


def flat(world, stage, op, out):
    """Carry out what is inside an operation before it."""
    for o in op.get("inside", []):
        flat(world, stage, o, out)
    res = stage.do(op)
    out[op["id"]] = None if res is None else list(res[:3])


def play(world, plan, root, nested):
    """Execute the script, nested or one after the other."""
    gc.disable()
    stage = script.Stage(world, plan, root)
    nest = Nest(world, stage) if nested else None
    out, reports = {}, []
    for op in plan["ops"]:
        if nested:
            nest.step(op)
        else:
            flat(world, stage, op, out)
        who = c18.party(op)
        reports.append(stage.report((op["k"], who), plan["xs"].get(who, [])))
    end = {}
    for who in sorted({c18.party(o) for o in walk(plan["ops"])}):
        kind = next(o["k"] for o in walk(plan["ops"]) if c18.party(o) == who)
        end[who] = stage.report((kind, who), plan["xs"].get(who, []))
    bad = stage.env.changed_arrays()
    if bad:
        world.fail("array of the user changed", str(bad[:3]))
    return nest.out if nested else out, reports, end


def walk(ops):
    """Yield all operations."""
    for op in ops:
        yield op
        yield from walk(op.get("inside", []))


class C19(Prop):
    ID = "C19"
    QUICK = 1200
    THOROUGH = 40000
    RULE = ("A run is a script on 2-4 solvers, similarity solutions and "
            "readers in which operations on other objects (construction, "
            "settings, solves with events, queries, resets, loads, refused "
            "and failing ones) and queries of the solver itself are carried "
            "out by the user's functions at drawn calls of them during a "
            "solve, query or setting, up to three levels deep. The result of "
            "every operation and everything the objects report are compared "
            "with the same operations one after the other. Non-trivial: at "
            "least one operation was carried out from inside a user "
            "function. Distinct by history digest.")
    STATES = ("distinct (user function, operation carried out inside it, "
              "setting or property, depth, outcome)")
    REAL = ["all of ibl", "scipy", "io, pathlib, importlib.resources"]
    STUB = ["raw files (sim.disk)", "user-supplied objects"]
    ASSUME = ["a user function does not change the settings of the solver "
              "that is calling it and does not start another solve on it"]

    def gen(self, rng, idx, tier):
        while True:
            plan = c18.PROP.gen(rng, idx, tier)
            kinds = {c18.party(o): o["k"] for o in plan["ops"]}
            if "solver" in kinds.values() and 2 <= len(kinds) <= 4:
                break
        ops = []
        n = 0
        sims = {}
        for op in plan["ops"]:
            op = dict(op, id=n)
            n += 1
            op.pop("faults", None)
            if op["k"] == "sim":
                self.cheap(rng, op, sims)
            ops.append(op)
        # hang operations into the ones of other solvers which follow
        out = []
        for i, op in enumerate(ops):
            who = c18.party(op)
            if op["k"] == "solver" and op["op"] in ("solve", "query", "set",
                                                    "new"):
                inside = []
                while out and rng.random() < 0.7:
                    last = out[-1]
                    if c18.party(last) == who or any(
                            c18.party(o) == who
                            for o in walk(last.get("inside", []))):
                        break
                    if self.deep(last) >= 3:
                        break
                    inside.insert(0, out.pop())
                if op["op"] != "new" and rng.random() < 0.35:
                    x0, _m, x1 = plan["xs"][who]
                    q = {"op": "query", "slot": who, "k": "solver", "id": n,
                         "prop": rng.choice(bl.PROPS), "own": True,
                         "x": rng.choice([x0, [x0, x1]])}
                    n += 1
                    inside.append(q)
                last = 0
                for o in inside:
                    o["site"] = f"{who}." + rng.choice(
                        ["*", "u", "du", "du", "u", "event*", "sh*",
                         "derivative"])
                    big = op["op"] == "solve"
                    last = max(last, int(10**rng.uniform(0, 2.2 if big
                                                         else 0.5)))
                    o["call"] = last
                    if o["site"] != inside[0]["site"] and not o.get("own"):
                        o["site"] = inside[0]["site"]
                if inside:
                    op["inside"] = inside
                if op["op"] == "solve" and rng.random() < 0.3:
                    xs = plan["xs"][who]
                    op["faults"] = hist.gen_faults(
                        rng, who, xs[0], xs[2], "TN")
            out.append(op)
        return dict(plan, ops=out)

    @staticmethod
    def cheap(rng, op, kinds):
        """Let parameters match, whatever came before (others are stiff)."""
        if op["do"] not in ("new", "params", "beta", "m"):
            return
        to = op["args"] if op["do"] == "new" else op
        if op["do"] == "new":
            kinds[op["o"]] = to["kind"]
        blasius = kinds.get(op["o"]) == "B"
        b, fw, eta = (0.0, 0.4696, rng.choice([7.1, 6.5])) if blasius else \
            rng.choice([t for t in simil.TABLE if t[0] != 2.0])
        if op["do"] == "params" and not blasius:
            op["do"] = "beta"
        if to.get("fw") not in BAD:
            to["fw"] = float(f"{fw*(1 + rng.choice([0, 0, 1e-3])):.9g}")
        if to.get("eta") not in BAD:
            to["eta"] = float(f"{eta*rng.choice([1, 1, 0.97, 0.8]):.9g}")
        if op["do"] == "new":
            to["beta"] = b
        elif op["do"] == "m":
            if to.get("val") not in (-1.0, -2.0, "x"):
                to["val"] = b/(2 - b)
        elif op["do"] == "beta" and to.get("val") not in (2.0001, 5, "nan",
                                                          "x"):
            to["val"] = b

    def deep(self, op):
        return 1 + max([self.deep(o) for o in op.get("inside", [])] or [0])

    def run(self, plan, ctx):
        if not plan["ops"]:
            return
        b, rb, eb = disk.scratch(lambda root: ctx.world(
            "flat", play, plan, root, False, hang="unjudged"))
        a, ra, ea = disk.scratch(lambda root: ctx.world(
            "nested", play, plan, root, True))
        for op in walk(plan["ops"]):
            i = op["id"]
            if op.get("own"):
                x = a.get(i)
                if x in (None, "late") or b.get(i) is None:
                    continue
                if x[0] == "exc" and x[1] == "ValueError":
                    continue
            d = bl.differ(b.get(i), a.get(i))
            if d:
                raise Violation("outcome depends on nesting",
                                f"{self.brief(op)}: alone vs nested {d}")
        for op, x, y in zip(plan["ops"], rb, ra):
            d = bl.differ(x, y)
            if d:
                raise Violation("report depends on nesting",
                                f"after {self.brief(op)}: alone vs nested "
                                f"{d}")
        d = bl.differ(eb, ea)
        if d:
            raise Violation("report depends on nesting",
                            f"at the end: alone vs nested {d}")
        ctx.nontrivial = bool(ctx.metas[-1]["probes"].get(
            "used from inside a user function"))

    @staticmethod
    def brief(op):
        """Return operation without those inside it."""
        return {k: v for k, v in op.items() if k != "inside"}

    def lists(self, plan):
        out = [["ops"]]

        def add(path, ops):
            for i, op in enumerate(ops):
                for key in ("inside", "events", "faults"):
                    if op.get(key):
                        out.append(path + [i, key])
                add(path + [i, "inside"], op.get("inside", []))
        add(["ops"], plan["ops"])
        return out

    def simpler(self, plan):
        def up(i):
            def fn(p):
                op = p["ops"][i]
                p["ops"][i:i + 1] = op.pop("inside") + [op]
                return p
            return fn
        return [up(i) for i, op in enumerate(plan["ops"])
                if op.get("inside")]


PROP = C19()
