"""C18: solvers and readers do not influence one another."""
import copy
import gc

from sim import bl, disk, hist, loads, script, seams
from sim.core import Violation
from sim.prop import Prop
from sim.props import c16

XS = (0.0, 0.3, 0.7)


def party(op):
    """Return the name of the object that an operation is about."""
    return op.get("slot") or op.get("r") or op.get("o")


def play(world, plan, root, only):
    """Carry out the operations (of one object only)."""
    gc.disable()
    stage = script.Stage(world, plan, root)
    seam = [seams.IntegratorSeam(world), seams.SimilaritySeam(world)]
    if any(op["k"] == "sim" and op.get("faults") for op in plan["ops"]):
        for s in seam:
            s.install()
    out = []
    active = [None]
    strangers = []

    def hook(site):
        if site.split(".")[0] != active[0]:
            strangers.append((site, active[0]))
    stage.env.hook = hook
    last = None
    for op in plan["ops"]:
        who = party(op)
        if only is not None and who != only:
            continue
        active[0] = who
        f = op.get("faults", []) if op["k"] == "sim" else []
        seam[0].arm([x for x in f if "where" not in x])
        seam[1].arm([x for x in f if "where" in x])
        res = stage.do(op)
        for s in seam:
            s.arm([])
        rep = stage.report((op["k"], who), plan["xs"].get(who, []))
        out.append((who, None if res is None else list(res[:3]), rep))
        if strangers:
            world.fail("object of the user used by another solver",
                       f"{strangers[0][0]} called in {op} of {who}")
        if only is None:
            world.log(who, op.get("op", op.get("do")),
                      None if res is None else res[:2])
            if last is not None and last != who:
                world.state(last_kind, op["k"], op.get("op", op.get("do")),
                            op.get("key", op.get("prop", "")),
                            None if res is None else res[0])
        last, last_kind = who, op["k"]
    end = {}
    for who in sorted({party(o) for o in plan["ops"]}):
        if only is None or who == only:
            active[0] = who
            kind = next(o["k"] for o in plan["ops"] if party(o) == who)
            end[who] = stage.report((kind, who), plan["xs"].get(who, []))
    bad = stage.env.changed_arrays()
    if bad:
        world.fail("array of the user changed", str(bad[:3]))
    return out, end


class C18(Prop):
    ID = "C18"
    QUICK = 1300
    THOROUGH = 40000
    RULE = ("A run is an interleaved script of operations (construction, "
            "settings, refused settings, solves with events and callback "
            "faults, queries, resets, loads with damaged files and errors, "
            "changes of what was handed out) on 2-6 solvers, similarity "
            "solutions and readers, many of them alike but for one setting. "
            "The result of every operation and everything the object reports "
            "after it are compared with the same operations of this object "
            "alone in a new process. Non-trivial: at least two objects and "
            "four changes between them. Distinct by history digest.")
    STATES = ("distinct (kind of the object used before, operation, setting "
              "or property, outcome) at changes from one object to another")
    REAL = ["all of ibl", "scipy", "io, pathlib, importlib.resources"]
    STUB = ["raw files (sim.disk)", "user-supplied objects",
            "integrator step, root finder and quadrature where a fault is "
            "injected"]
    ASSUME = ["no user object is given to two solvers (documented as "
              "belonging to the one it is given to)"]

    def gen(self, rng, idx, tier):
        plan = {"xs": {}, "files": []}
        threads = []
        n = rng.choice([2, 2, 3, 3, 4, 6])
        kinds = [rng.choice(["solver"]*5 + ["sim"]*2 + ["reader"]*2)
                 for _ in range(n)]
        what = [["dump"], ["case"], ["dump", "case"]]
        p_poke = 0.2
        if rng.random() < 0.3:
            # objects of one kind only
            kind = rng.choice(["solver", "sim", "reader", "reader"])
            kinds = [kind]*(n if kind != "sim" else min(n, 3))
            what = what[:2]
            p_poke = 0.35
        first = None
        for i, kind in enumerate(kinds):
            if kind == "solver":
                threads.append(self.gen_solver(rng, f"s{i}", plan, first))
                first = first or (threads[-1][0]["cfg"],
                                  plan["xs"][f"s{i}"])
            elif kind == "sim":
                ops = [o for o in c16.PROP.gen(rng, idx, tier)["ops"]
                       if o["o"] == 0][:6]
                threads.append([dict(o, o=f"a{i}", k="sim") for o in ops])
        nr = kinds.count("reader")
        if nr:
            sub = loads.gen_plan(rng, rng.choice(what), nr, 4*nr, p_err=0.2,
                                 p_damage=0.3, p_poke=p_poke)
            plan["files"] = sub["files"]
            for r in range(nr):
                threads.append([dict(o, k="reader") for o in sub["ops"]
                                if o["r"] == f"r{r}"])
        ops = []
        threads = [t for t in threads if t]
        while threads:
            t = rng.choice(threads)
            for _ in range(rng.choice([1, 1, 1, 2])):
                if t:
                    ops.append(t.pop(0))
            threads = [t for t in threads if t]
        plan["ops"] = ops
        return plan

    @staticmethod
    def gen_solver(rng, name, plan, first):
        """Draw the operations of one solver."""
        ops, _cfgs, ranges = hist.gen_history(rng, 1, rng.choice([3, 5, 8]))
        x0, x1 = ranges["s0"]
        if first is not None and rng.random() < 0.6:
            # like another solver but for one setting
            cfg = copy.deepcopy(first[0])
            xs = first[1]
            span = (xs[2] - xs[0])/0.7
            x0, x1 = xs[0], round(xs[0] + span, 4)
            new = bl.gen_cfg(rng, x0, x1, cls=cfg["cls"])
            key = rng.choice(["nu", "vel", "dm", "fit", "none"])
            if key in cfg:
                cfg[key] = new[key]
            ops = [{"op": "new", "cfg": copy.deepcopy(cfg)}]
            for _ in range(rng.choice([2, 4, 6])):
                r = rng.random()
                if r < 0.4:
                    op = {"op": "solve", "x0": x0, "x1": x1}
                    if rng.random() < 0.3:
                        op["events"] = bl.gen_events(rng, x0, x1)
                    ops.append(op)
                elif r < 0.7:
                    for op in hist.gen_set(rng, cfg, x0, x1):
                        ops.append(op)
                        hist.model_set(cfg, op["key"], op["val"])
                else:
                    ops.append({"op": "query", "prop": rng.choice(bl.PROPS),
                                "x": [x0, round((x0 + x1)/2, 4)]})
        out = []
        for op in ops:
            if op["op"] == "analytic":
                continue
            op = dict(op, slot=name, k="solver")
            if "faults" in op:
                op["faults"] = [dict(f, site=f["site"].replace(
                    "s0.", name + ".")) for f in op["faults"]]
            out.append(op)
        plan["xs"][name] = [round(x0 + (x1 - x0)*t, 6) for t in XS]
        return out

    def run(self, plan, ctx):
        if not plan["ops"]:
            return
        names = sorted({party(o) for o in plan["ops"]})
        single = {}
        for who in names:
            single[who] = disk.scratch(lambda root, who=who: ctx.world(
                f"alone {who}", play, plan, root, who, hang="unjudged"))
        log, end = disk.scratch(lambda root: ctx.world(
            "together", play, plan, root, None))
        turns = sum(a[0] != b[0] for a, b in zip(log, log[1:]))
        for who in names:
            alone, last = single[who]
            mine = [e for e in log if e[0] == who]
            ops = [o for o in plan["ops"] if party(o) == who]
            for op, a, b in zip(ops, alone, mine):
                d = bl.differ(a[1], b[1])
                if d:
                    raise Violation("another object changed an outcome",
                                    f"{who} {op}: alone vs together {d}")
                d = bl.differ(a[2], b[2])
                if d:
                    raise Violation("another object changed a report",
                                    f"after {who} {op}: alone vs together "
                                    f"{d}")
            d = bl.differ(last[who], end[who])
            if d:
                raise Violation("another object changed a report",
                                f"at the end {who}: alone vs together {d}")
        ctx.nontrivial = len(names) > 1 and turns >= 4

    def lists(self, plan):
        out = [["ops"]]
        for i, op in enumerate(plan["ops"]):
            for key in ("events", "faults"):
                if op.get(key):
                    out.append(["ops", i, key])
        return out


PROP = C18()
