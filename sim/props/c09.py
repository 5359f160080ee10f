"""C09: an interrupted operation surfaces and can simply be repeated."""
import copy
import gc

from sim import bl, disk, files, flows, hist, loads, points, script, simil
from sim.core import Violation
from sim.prop import Prop

EXCS = ["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError"]


class Points:
    """Counts points, and raises at one of them."""

    def __init__(self, world):
        self.world = world
        self.n = 0
        self.at = None
        self.exc = None
        self.fired = None
        self.table = None
        self.tracer = points.Tracer(self._hit)

    def _hit(self, loc):
        self.n += 1
        if self.table is not None:
            got = self.table.get(loc)
            if got is None:
                self.table[loc] = [self.n, self.n]
            else:
                got[1] = self.n
        if self.n == self.at:
            self.fired = loc
            raise flows.EXC[self.exc]("injected interrupt")

    def record(self, fn):
        """Call fn and note all points on the way."""
        self.table = {}
        res = self._go(fn)
        table, self.table = self.table, None
        return res, self.n, table

    def interrupt(self, fn, at, exc):
        """Call fn, raise exc at point number at."""
        self.at, self.exc = at, exc
        res = self._go(fn)
        self.at = None
        if self.fired is not None:
            self.world.fault(f"{exc} in " + ("library" if self.fired[0]
                                             == "lib" else "package"))
            self.world.state(self.fired, exc)
        return res

    def _go(self, fn):
        self.n = 0
        self.fired = None
        self.tracer.on()
        try:
            return fn()
        finally:
            self.tracer.off()


def begin(world, plan, root):
    """Carry out the history."""
    gc.disable()
    stage = script.Stage(world, plan, root)
    for op in plan["hist"]:
        stage.do(op)
    return stage


def settle(stage, plan):
    """What happens after the operation."""
    out = [stage.do(op) for op in plan.get("after", [])]
    return [bl.plain(o) if o is None else list(o[:2]) for o in out], \
        stage.everything(plan["xs"])


def dry(world, plan, root):
    """The operation without interrupt."""
    stage = begin(world, plan, root)
    op = plan["op"]
    who = stage.name(op)
    before = stage.report(who, plan["xs"])
    everyone = stage.everything(plan["xs"])
    pts = Points(world)
    res, n, table = pts.record(lambda: stage.do(op))
    if res is None:
        return None
    after = stage.report(who, plan["xs"])
    end = settle(stage, plan)
    kind = who[0]
    blank = None
    if kind == "reader" and who[1] in stage.bench.readers:
        blank = stage.bench.blank[stage.bench.readers[who[1]][0]]
    return {"res": list(res[:2]), "n": n, "table": table, "before": before,
            "after": after, "everyone": everyone, "end": end, "blank": blank}


def subject(world, plan, root, at):
    """The operation interrupted at the points given, then repeated."""
    stage = begin(world, plan, root)
    op = plan["op"]
    who = stage.name(op)
    stage.report(who, plan["xs"])
    stage.everything(plan["xs"])
    pts = Points(world)
    tries = []
    for n, exc in at:
        res = pts.interrupt(lambda: stage.do(op), n, exc)
        tries.append({"res": list(res), "fired": pts.fired,
                      "all": stage.everything(plan["xs"])})
        world.log("try", n, exc, pts.fired, res[:3])
    res = stage.do(op)
    after = stage.report(who, plan["xs"])
    end = settle(stage, plan)
    return {"tries": tries, "res": list(res[:2]), "after": after, "end": end}


def refusing(rep):
    """True if a solver answers for no solution at all."""
    return all(rep["obs"][p][0] == "exc" for p in bl.SOL_PROPS)


class C09(Prop):
    ID = "C09"
    QUICK = 3200
    THOROUGH = 60000
    RULE = ("A run is a history followed by one operation (construction, "
            "setting, solve or query of a solver; construction, reset or "
            "query of a similarity solution; load or query of a reader) "
            "which is interrupted up to three times by an exception raised "
            "at a drawn bytecode instruction of the package or start of a "
            "library function it calls, and then repeated. What is reported "
            "after each interrupt, the repetition and everything after it "
            "are compared with the same run without interrupts. "
            "Non-trivial: an interrupt fired. Distinct by history digest.")
    STATES = ("distinct (point of code interrupted, exception)")
    REAL = ["all of ibl", "scipy", "io, pathlib, importlib.resources"]
    STUB = ["raw files (sim.disk)", "user-supplied objects"]
    ASSUME = ["only operations that succeed without the interrupt are "
              "interrupted, and each attempt once (not again while a "
              "failure is being handled)",
              "no interrupt inside the import system or inside functions "
              "of the user"]

    def gen(self, rng, idx, tier):
        kind = rng.choice(["solver"]*6 + ["sim"]*3 + ["reader"]*3)
        plan = {"xs": [], "files": [], "hist": []}
        if kind == "solver":
            self.gen_solver(rng, plan)
        elif kind == "sim":
            self.gen_sim(rng, plan)
        else:
            self.gen_reader(rng, plan)
        plan["tries"] = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            plan["tries"].append({
                "how": rng.choice(["any", "place", "place", "place"]),
                "u": round(rng.random(), 9), "end": rng.randrange(2),
                "exc": rng.choice(EXCS)})
        return plan

    @staticmethod
    def gen_solver(rng, plan):
        """Draw an operation on a solver."""
        x0, x1 = bl.gen_range(rng)
        cfg = bl.gen_cfg(rng, x0, x1)
        slow = cfg["cls"] != "TL"
        plan["xs"] = [round(x0 + (x1 - x0)*t, 5) for t in (0, 0.2, 0.6)]
        new = {"k": "solver", "op": "new", "slot": "s0", "cfg":
               copy.deepcopy(cfg)}
        solve = {"k": "solver", "op": "solve", "slot": "s0", "x0": x0,
                 "x1": x1}
        ops = [new]
        for _ in range(rng.choice([0, 0, 1, 2])):
            for op in hist.gen_set(rng, cfg, x0, x1):
                ops.append(dict(op, slot="s0", k="solver"))
                hist.model_set(cfg, op["key"], op["val"])
        if rng.random() < 0.7:
            first = dict(solve)
            if rng.random() < 0.5:
                first["x1"] = round(x0 + (x1 - x0)*rng.uniform(0.3, 0.9), 5)
            ops.append(first)
            if rng.random() < 0.35:
                for op in hist.gen_set(rng, cfg, x0, x1):
                    ops.append(dict(op, slot="s0", k="solver"))
                    hist.model_set(cfg, op["key"], op["val"])
        if rng.random() < 0.2:
            y0, y1 = bl.gen_range(rng)
            ops += [{"k": "solver", "op": "new", "slot": "s1",
                     "cfg": bl.gen_cfg(rng, y0, y1, cls="TL")},
                    {"k": "solver", "op": "solve", "slot": "s1", "x0": y0,
                     "x1": y1}]
        r = rng.random()
        if r < 0.1:
            ops = [o for o in ops if o.get("slot") != "s0"]
            op = dict(new, cfg=copy.deepcopy(cfg))
            op["ctor"] = rng.choice([["nu", "vel", "fit", "crit"], ["nu"],
                                     ["nu", "vel"]])
        elif r < 0.45:
            op = solve
            if rng.random() < 0.5:
                evs = bl.gen_events(rng, x0, x1)
                if evs:
                    op["events"] = evs
        elif r < 0.75:
            # the last of the settings that go together
            more = hist.gen_set(rng, cfg, x0, x1)
            for o in more[:-1]:
                ops.append(dict(o, slot="s0", k="solver"))
            op = dict(more[-1], slot="s0", k="solver")
        else:
            x = [round(x0 + (x1 - x0)*rng.random(), 5)
                 for _ in range(rng.choice([1, 2, 5]))]
            op = {"k": "solver", "op": "query", "slot": "s0",
                  "prop": rng.choice(bl.PROPS), "x": x}
        plan["hist"] = ops
        plan["op"] = op
        plan["after"] = [{k: v for k, v in solve.items() if k != "events"
                          or rng.random() < 0.2}]
        if slow and op["op"] == "solve" and rng.random() < 0.5:
            op["x1"] = round(x0 + (x1 - x0)*0.3, 5)

    @staticmethod
    def gen_sim(rng, plan):
        """Draw an operation on a similarity solution."""
        def given(b=None):
            b, fw, eta = rng.choice([t for t in simil.TABLE
                                     if b is None or t[0] == b])
            return {"beta": b, "fw": fw, "eta": round(eta*rng.choice(
                [1, 0.98, 0.9]), 6)}
        kind = rng.choice(["FS", "FS", "B"])
        g = given(0.0 if kind == "B" else None)
        new = {"k": "sim", "o": "a", "do": "new", "args": dict(
            g, kind=kind, u=rng.choice([1, 10.0]), nu=rng.choice(
                [1e-5, 0.1]))}
        ops = [new]
        r = rng.random()
        if r < 0.2:
            ops = []
            op = copy.deepcopy(new)
            if rng.random() < 0.12:
                op["args"]["fw"] = op["args"]["eta"] = None
                if kind == "FS":
                    op["args"]["beta"] = rng.choice([0.2, 1.0])
        elif r < 0.75:
            do = rng.choice(["params", "beta", "m"]) if kind == "FS" \
                else "params"
            h = given(g["beta"] if do == "params" else None)
            if do == "params":
                h["eta"] = round(h["eta"]*0.95, 6)
                h["fw"] *= rng.choice([1, 1.001])
            op = {"k": "sim", "o": "a", "do": do, "fw": h["fw"],
                  "eta": h["eta"]}
            if do == "beta":
                op["val"] = h["beta"]
            elif do == "m":
                op["val"] = "inf" if h["beta"] == 2.0 else \
                    h["beta"]/(2 - h["beta"])
            if rng.random() < 0.04 and h["beta"] in (0.0, 0.2):
                op["fw"] = op["eta"] = None
        elif r < 0.85:
            op = {"k": "sim", "o": "a", "do": rng.choice(["u_ref",
                                                          "nu_ref"]),
                  "val": rng.choice([0.5, 3.0])}
        else:
            op = {"k": "sim", "o": "a", "do": "ask",
                  "what": rng.choice(simil.ASK)}
        plan["hist"] = ops
        plan["op"] = op
        plan["after"] = []

    @staticmethod
    def gen_reader(rng, plan):
        """Draw an operation on a reader."""
        kind = rng.choice(["dump", "case"])
        plan["files"] = []
        for i in range(2):
            f = {"kind": kind, "versions": []}
            if kind == "case":
                f["case"] = f"{1 + i}{rng.randrange(10, 100)}9"
                f["versions"].append({"spec": files.gen_case_spec(
                    rng, f["case"])})
            else:
                f["versions"].append({"spec": files.gen_dump_spec(rng)})
            plan["files"].append(f)
        load = {"k": "reader", "op": "load", "r": "r0", "file": 0,
                "ver": [0]}
        ops = [load]
        if rng.random() < 0.3:
            ops.append({"k": "reader", "op": "poke", "r": "r0", "what":
                        "settings" if kind == "dump" else "values", "k": 0,
                        "val": 1.5})
        if rng.random() < 0.3:
            ops.append(dict(load, r="r1", file=rng.randrange(2)))
        r = rng.random()
        if r < 0.7:
            op = dict(load, file=rng.choice([0, 1, 1]))
            if rng.random() < 0.25:
                op["ctor"] = True
            if rng.random() < 0.5:
                op["opens"] = [loads.gen_open(rng, False)]
            if rng.random() < 0.3:
                ops = []
                op["ctor"] = True
        elif r < 0.85:
            op = {"k": "reader", "op": "view", "r": "r0"}
        else:
            op = {"k": "reader", "op": "clear", "r": "r0"}
        plan["hist"] = ops
        plan["op"] = op
        plan["after"] = [dict(load, file=0)]

    def run(self, plan, ctx):
        base = disk.scratch(lambda root: ctx.world("dry", dry, plan, root,
                                                   hang="unjudged"))
        if base is None or base["res"][0] != "ok" or base["n"] == 0:
            return
        if plan["op"].get("op") == "solve" and not base["res"][1]["success"]:
            return
        places = sorted(base["table"])
        at = []
        for t in plan["tries"]:
            if t["how"] == "any":
                n = 1 + int(t["u"]*base["n"])
            else:
                n = base["table"][places[int(t["u"]*len(places))]][t["end"]]
            at.append((n, t["exc"]))
        got = disk.scratch(lambda root: ctx.world("subject", subject, plan,
                                                  root, at))
        kind = plan["op"]["k"]
        who = f"{kind} {plan['op'].get('slot', plan['op'].get('r', plan['op'].get('o')))}"
        for (n, exc), t in zip(at, got["tries"]):
            if t["fired"] is None:
                # an earlier attempt changed the number of points
                if not bl.close(t["res"][:2], base["res"]):
                    raise Violation("repetition differs", f"{plan['op']}: "
                                    f"{str(t['res'])[:500]}")
                continue
            ctx.nontrivial = True
            text = (f"{plan['op']} interrupted by {exc} at point {n} of "
                    f"{base['n']}: {t['fired']}")
            if t["res"][0] == "ok" or t["res"][1] != exc or \
                    "injected interrupt" not in t["res"][2]:
                raise Violation("interrupt did not reach the caller",
                                f"{text}: {str(t['res'])[:500]}")
            self.judge(plan, base, t["all"], who, text)
        text = f"{plan['op']} interrupted at {[t['fired'] for t in got['tries']]}"
        if not bl.close(base["res"], got["res"]):
            raise Violation("repetition differs", text + ": " + str(
                bl.differ(base["res"], got["res"])))
        d = bl.differ(base["after"], got["after"])
        if d:
            raise Violation("repetition leads to another report",
                            f"{text}: {d}")
        d = bl.differ(base["end"], got["end"])
        if d:
            raise Violation("repetition leads to another future",
                            f"{text}: {d}")

    @staticmethod
    def judge(plan, base, now, who, text):
        """Check what is reported after an interrupt."""
        for name, rep in base["everyone"].items():
            if name == who:
                continue
            d = bl.differ(rep, now.get(name))
            if d:
                raise Violation("interrupt changed another object",
                                f"{text}: {name}: {d}")
        rep = now.get(who)
        before, after = base["before"], base["after"]
        op = plan["op"]
        if rep is None:
            if before is not None and not op.get("ctor"):
                raise Violation("object lost", text)
            return
        if op.get("op") == "new" or op.get("do") == "new":
            return              # the user never gets the new object
        def says(want):
            return want is not None and bl.close(rep, want)
        if who.startswith("solver"):
            rep, before, after = [{"obs": v["obs"]} for v in (rep, before,
                                                              after)]
            if op["op"] == "set":
                if refusing(rep):
                    return
                for p in bl.SOL_PROPS:
                    if not bl.close(rep["obs"][p], before["obs"][p]):
                        raise Violation(
                            "answer is of no configuration solved",
                            f"{text}: {p} {rep['obs'][p]} before "
                            f"{before['obs'][p]}")
                return
            if op["op"] == "solve" and refusing(rep):
                return
        if says(before) or says(after):
            return
        if who.startswith("reader") and op["op"] in ("load", "clear"):
            if says(base["blank"]):
                return
            key = "filename" if "filename" in rep else "case"
            if after is not None and bl.close(dict(after, **{key: ""}), rep):
                return
        raise Violation("report is neither the old nor the new one",
                        f"{text}: differs from before in "
                        f"{bl.differ(before, rep)}, from after in "
                        f"{bl.differ(after, rep)}")

    def lists(self, plan):
        return [["hist"], ["tries"]]

    def simpler(self, plan):
        out = []
        if plan.get("after"):
            def drop(p):
                p["after"] = []
                return p
            out.append(drop)
        return out


PROP = C09()
