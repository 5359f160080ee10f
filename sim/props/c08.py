"""C08: any thread interleaving gives the sequential answers."""
import copy
import gc

from sim import bl, disk, files, flows, hist, loads, sched, script, simil
from sim.core import Violation
from sim.prop import Prop
from sim.props import c09

BUDGET = 60_000_000


class Own(script.Stage):
    """What one thread works on."""

    def __init__(self, world, dk, plan):    # pylint: disable=W0231
        self.world = world
        self.env = flows.Env(world)
        self.hist = hist.History(world, self.env)
        self.sims = {}
        self.readers = {}
        self.disk = dk
        self.files = plan["files"]

    def _reader(self, op):
        from ibl.reference import StanfordOlympics1968, XFoilReader
        name = op["r"]
        if op["op"] == "load":
            f = self.files[op["file"]]
            kind = f["kind"]
            ref = self.disk.path(f["name"]) if kind == "dump" else f["case"]
            cls = XFoilReader if kind == "dump" else StanfordOlympics1968

            def act():
                if op.get("ctor") or name not in self.readers:
                    self.readers[name] = (kind, cls(ref))
                elif kind == "dump":
                    self.readers[name][1].filename = ref
                else:
                    self.readers[name][1].case = ref
            res = bl.guard(self.world, act)
            if res[0] == "exc":
                return ("exc", res[1], res[2].replace(self.disk.root, ""))
            return ("ok", None)
        if name not in self.readers:
            return None
        kind, reader = self.readers[name]
        if op["op"] == "view":
            return bl.guard(self.world, loads.Bench.view, kind, reader)
        return bl.guard(self.world, c09_clear, kind, reader)


def c09_clear(kind, reader):
    """Make a reader empty."""
    if kind == "dump":
        reader.filename = ""
    else:
        reader.case = ""


def prepare(world, plan, root):
    """Make what exists before the threads start."""
    gc.disable()
    dk = disk.Disk(world, root)
    plans = {}
    for i, f in enumerate(plan["files"]):
        data = files.damage(files.make(f["spec"]), f.get("damage", []))
        if f["kind"] == "dump":
            path = dk.path(f["name"])
            dk.put(path, [data])
        else:
            import os
            path = os.path.join(loads.CASE_DIR, f"case {f['case']}.txt")
            dk.put(path, [data], f"case{i}")
        plans[path] = [f.get("open", {})]
    dk.arm(plans)
    dk.install()
    stages = [Own(world, dk, plan) for _ in plan["threads"]]
    dk.watch = True
    for op in plan.get("shared", []):
        stages[0].do(op)
    for st in stages[1:]:
        st.hist.slots.update(stages[0].hist.slots)
        st.sims.update(stages[0].sims)
        st.readers.update(stages[0].readers)
    # one budget for all threads together
    world.ticks.budget(BUDGET*len(stages))
    world.ticks.budget = lambda _n: None
    return stages


def thread(stage, ops, out):
    """Return the function that a thread executes."""
    def fn():
        for op in ops:
            res = stage.do(copy.deepcopy(op))
            out.append(None if res is None else list(res[:3]))
    return fn


def play(world, plan, root, spec, record):
    """Execute all threads under a schedule."""
    stages = prepare(world, plan, root)
    outs = [[] for _ in stages]
    s = sched.Scheduler(world, spec, record)
    for st in stages:
        st.env.hook = s.callback
    s.run([thread(st, ops, out) for st, ops, out
           in zip(stages, plan["threads"], outs)])
    bad = [c for st in stages for c in st.env.changed_arrays()]
    if bad:
        world.fail("array of the user changed", str(bad[:3]))
    world.probe("points passed", s.n)
    return {"outs": outs, "n": s.n, "table": s.table,
            "switches": s.switches}


class C08(Prop):
    ID = "C08"
    QUICK = 1400
    THOROUGH = 40000
    RULE = ("A run executes the calls of 2-4 real threads, either queries of "
            "one solver, similarity solution or reader that they share, or "
            "construction, settings, solves, resets, loads and queries of "
            "objects of their own, under a seeded schedule which decides at "
            "every bytecode instruction of the package, library function "
            "start and user callback who goes on (random switches, "
            "priorities with few change points, or one thread parked at a "
            "drawn place); all answers are compared with those of the "
            "threads one after the other in another process. Non-trivial: "
            "at least one preemption. Distinct by schedule and history "
            "digest.")
    STATES = ("distinct (point at which a thread was preempted, point at "
              "which the other one goes on)")
    REAL = ["all of ibl", "scipy", "threads of the operating system",
            "io, pathlib, importlib.resources"]
    STUB = ["choice of the running thread", "threading.Lock and RLock",
            "raw files (sim.disk)", "user-supplied objects"]
    ASSUME = ["C code of numpy, scipy and Python is not preempted",
              "objects of the user are not shared between threads, but "
              "functions of the user of a shared solver are called by all"]

    def gen(self, rng, idx, tier):
        n = rng.choice([2, 2, 2, 3, 4])
        plan = {"files": [], "shared": [], "threads": []}
        if rng.random() < 0.45:
            self.gen_shared(rng, plan, n)
        else:
            self.gen_own(rng, plan, n)
        how = rng.choice(["random", "pct", "park", "park", "often", "often",
                          "often", "often"])
        spec = {"how": how, "seed": rng.randrange(1 << 30)}
        if how == "random":
            spec["p"] = rng.choice([0.0005, 0.003, 0.02, 0.1])
        elif how == "pct":
            spec["at"] = [round(rng.random(), 9)
                          for _ in range(rng.choice([1, 2, 3, 5]))]
        elif how == "often":
            spec["c"] = rng.choice([0.01, 0.1, 0.5, 2])
            spec["long"] = rng.choice([1, 2, 3, 4])
        else:
            spec["by"] = rng.choice(["n", "loc", "loc", "loc"])
            spec["u"] = round(rng.random(), 9)
            spec["first"] = rng.randrange(n)
            spec["to"] = rng.randrange(n)
            spec["nth"] = rng.choice([1, 1, 1, 2, 5, 40])
            if rng.random() < 0.4:
                spec["for"] = int(10**rng.uniform(0, 4))
        plan["schedule"] = spec
        return plan

    @staticmethod
    def gen_shared(rng, plan, n):
        """Draw queries of one object by all threads."""
        kind = rng.choice(["solver"]*4 + ["sim"]*3 + ["reader"])
        if kind == "solver":
            x0, x1 = bl.gen_range(rng)
            cfg = bl.gen_cfg(rng, x0, x1)
            plan["shared"] = [
                {"k": "solver", "op": "new", "slot": "s0", "cfg": cfg},
                {"k": "solver", "op": "solve", "slot": "s0", "x0": x0,
                 "x1": x1}]

            # few properties at few places are asked for at the same moment
            props = rng.sample(bl.PROPS, rng.choice([1, 2, len(bl.PROPS)]))
            places = [round(x0 + (x1 - x0)*rng.random(), 5)
                      for _ in range(rng.choice([2, 2, 3, 8]))]
            alone = rng.choice([0, 0.25, 1])

            def ask():
                x = [rng.choice(places)
                     for _ in range(rng.choice([1, 1, 2, 3]))]
                if rng.random() < alone:
                    x = x[0]
                return {"k": "solver", "op": "query", "slot": "s0",
                        "prop": rng.choice(props), "x": x}
        elif kind == "sim":
            b, fw, eta = rng.choice(simil.TABLE[:-1])
            plan["shared"] = [{"k": "sim", "o": "a", "do": "new", "args": {
                "kind": "FS", "beta": b, "fw": fw, "eta": eta, "u": 2.0,
                "nu": 1e-5}}]
            # few questions at a time are asked at the same moment
            pool = rng.sample(simil.ASK, rng.choice([1, 1, 2, 4]))

            def ask():
                return {"k": "sim", "o": "a", "do": "ask",
                        "what": rng.choice(pool), "where": rng.randrange(4)}
        else:
            C08.add_file(rng, plan, 0)
            plan["shared"] = [{"k": "reader", "op": "load", "r": "r0",
                               "file": 0}]

            def ask():
                return {"k": "reader", "op": "view", "r": "r0"}
        some = [ask() for _ in range(rng.choice([1, 2, 3, 6]))]
        for _ in range(n):
            plan["threads"].append([
                rng.choice(some) if rng.random() < 0.5 else ask()
                for _ in range(rng.choice([1, 2, 4, 8] if kind != "reader"
                                          else [1, 2]))])

    @staticmethod
    def add_file(rng, plan, i, kind=None):
        kind = kind or rng.choice(["dump", "case"])
        f = {"kind": kind}
        if kind == "dump":
            f["name"] = f"dump{i}.txt"
            f["spec"] = files.gen_dump_spec(rng)
        else:
            f["case"] = f"{1 + i}{rng.randrange(10, 100)}9"
            f["spec"] = files.gen_case_spec(rng, f["case"])
        if rng.random() < 0.5:
            f["open"] = loads.gen_open(rng, False)
        if rng.random() < 0.2:
            f["damage"] = [files.gen_damage(rng)]
        plan["files"].append(f)

    @staticmethod
    def gen_own(rng, plan, n):
        """Draw work of every thread on its own objects."""
        kinds = rng.choice([["solver"], ["solver"], ["sim"], ["reader"],
                            ["reader"], ["solver", "sim", "reader"]])
        alike = rng.random() < 0.6
        x0, x1 = bl.gen_range(rng)
        x1 = round(x0 + min(x1 - x0, 0.6), 4)
        base = bl.gen_cfg(rng, x0, x1)
        fkind = rng.choice(["dump", "case"])
        n_files = rng.choice([1, 2, 2])
        made = False
        find = n == 2 and rng.random() < 0.2
        for i in range(n):
            kind = rng.choice(kinds)
            ops = []
            if kind == "solver":
                name = f"s{i}"
                cfg = bl.gen_cfg(rng, x0, x1, cls=base["cls"])
                if alike:
                    key = rng.choice(["nu", "vel", "dm", "fit", "none"])
                    new, cfg = cfg, copy.deepcopy(base)
                    if key in cfg:
                        cfg[key] = new[key]
                ops.append({"op": "new", "cfg": copy.deepcopy(cfg)})
                if rng.random() < 0.6:
                    for op in hist.gen_set(rng, cfg, x0, x1):
                        ops.append(op)
                        hist.model_set(cfg, op["key"], op["val"])
                if rng.random() < 0.15:
                    ops.append(hist.gen_bad(rng, cfg))
                solve = {"op": "solve", "x0": x0, "x1": x1}
                evs = bl.gen_events(rng, x0, x1) if rng.random() < 0.4 \
                    else []
                if evs:
                    solve["events"] = evs
                if rng.random() < 0.15:
                    solve["faults"] = hist.gen_faults(rng, name, x0, x1,
                                                      cfg["cls"])
                ops.append(solve)
                for _ in range(rng.choice([1, 3])):
                    ops.append({"op": "query", "prop": rng.choice(bl.PROPS),
                                "x": [x0, round((x0 + x1)/2, 5)]})
                ops = [dict(o, k="solver", slot=name) for o in ops]
            elif kind == "sim":
                sub = {}
                c09.C09.gen_sim(rng, sub)
                ops = sub["hist"] + [sub["op"]]
                ops = [o for o in ops if o.get("args", o).get("fw")
                       or o["do"] in ("ask", "u_ref", "nu_ref")]
                if find:
                    # the wall shear of a given outer limit is looked for
                    for o in ops[:1]:
                        if o["args"].get("eta") and (
                                o["args"].get("beta") or 0) < 0.9:
                            o["args"]["fw"] = None
                            o["args"]["eta"] *= 0.5
                            ops = ops[:1]
                ops.append({"k": "sim", "o": "a", "do": "observe"})
            else:
                if not made:
                    for k in range(n_files):
                        C08.add_file(rng, plan, k, fkind
                                     if rng.random() < 0.8 else None)
                    made = True
                fs = list(range(n_files))
                for _ in range(rng.choice([1, 1, 2, 3])):
                    k = rng.choice(fs)
                    ops.append({"k": "reader", "op": "load",
                                "r": f"r{plan['files'][k]['kind']}",
                                "file": k})
                    if rng.random() < 0.3:
                        ops[-1]["ctor"] = True
                    ops.append({"k": "reader", "op": "view",
                                "r": ops[-1]["r"]})
            plan["threads"].append(ops)

    def schedule(self, plan, base):
        """Turn relative places of the schedule into those of this plan."""
        spec = dict(plan["schedule"])
        if spec["how"] == "pct":
            spec["at"] = sorted({1 + int(u*base["n"]) for u in spec["at"]})
        elif spec["how"] == "often":
            spec["freq"] = base["table"]
        elif spec["how"] == "park":
            if spec["by"] == "n":
                spec["n"] = 1 + int(spec["u"]*base["n"])
            else:
                places = sorted(base["table"])
                if places:
                    loc = places[int(spec["u"]*len(places))]
                    spec["loc"] = list(loc)
                    spec["nth"] = min(spec["nth"], base["table"][loc])
                else:
                    spec["n"] = 1
        return spec

    def both(self, plan, ctx):
        base = disk.scratch(lambda root: ctx.world(
            "one after the other", play, plan, root, {"how": "none"}, True,
            hang="unjudged"))
        spec = self.schedule(plan, base)
        got = disk.scratch(lambda root: ctx.world(
            "interleaved", play, plan, root, spec, False))
        return base, got, spec

    def run(self, plan, ctx):
        if not plan["threads"]:
            return
        base, got, _spec = self.both(plan, ctx)
        ctx.nontrivial = len(got["switches"]) > 0
        for i, (ops, a, b) in enumerate(zip(plan["threads"], base["outs"],
                                            got["outs"])):
            for op, want, have in zip(ops, a, b):
                d = bl.differ(want, have)
                if d:
                    raise Violation(
                        "answer depends on the interleaving",
                        f"thread {i} {op}: sequential vs interleaved {d}\n"
                        f"{len(got['switches'])} switches, first "
                        f"{got['switches'][:6]}")
            if len(a) != len(b):
                raise Violation("thread ended early", f"thread {i}")

    def explicit(self, plan):
        """Return plan with its schedule as a list of switches."""
        from sim.core import Ctx
        _base, got, _spec = self.both(plan, Ctx(plan))
        new = copy.deepcopy(plan)
        new["schedule"] = {"how": "list", "switches": got["switches"]}
        return new

    def lists(self, plan):
        out = []
        if plan["schedule"]["how"] == "list":
            out.append(["schedule", "switches"])
        for i, _t in enumerate(plan["threads"]):
            out.append(["threads", i])
        return out


PROP = C08()
