"""C21: what has been handed out does not change any more."""
import copy
import gc

import numpy as np

from sim import bl, disk, files, watch
from sim.prop import Prop
from sim.props import c18

UP = ["s", "x", "y", "u_e", "delta_d", "delta_m", "delta_k", "shape_d",
      "shape_k", "c_f", "mass_defect", "mom_defect", "ke_defect"]
STATION = ["x", "y", "s", "u_e_rel", "delta_d", "delta_m", "delta_k",
           "shape_d", "shape_k", "c_f", "mass_defect", "mom_defect",
           "ke_defect"]


def frozen(val):
    """Return the value of something handed out, to be compared later."""
    if isinstance(val, np.ndarray):
        return ("array", val.dtype.str, val.shape, val.tobytes())
    if isinstance(val, (int, float, str, bool, type(None), np.generic)):
        return (type(val).__name__, repr(val))
    if isinstance(val, (list, tuple)):
        return (type(val).__name__,) + tuple(frozen(v) for v in val)
    if type(val).__name__ == "IntegrationResult":
        return ("result",) + tuple(frozen(getattr(val, a)) for a in (
            "x_end", "f_end", "status", "message", "success"))
    names = sorted(n for n in dir(type(val)) if isinstance(
        getattr(type(val), n, None), property))
    return (type(val).__name__,) + tuple(
        (n, frozen(getattr(val, n))) for n in names)


class Keeper:
    """Keeps all that was handed out, and its value then."""

    def __init__(self, world, plan):
        self.world = world
        self.plan = plan
        self.kept = []           # (what, object, value then)
        self.after = None

    def add(self, what, val):
        """Keep something that was handed out just now."""
        self.kept.append((what, val, frozen(val)))

    def collect(self, stage, op, res):
        """Check all that is kept; keep what the operation's object gives."""
        self.check(op)
        if op is None:
            return
        for what, val in self.world.given:
            self.add(what, val)
        self.world.given = []
        who = c18.party(op)
        kind = op["k"]
        if len(self.kept) > 3000:
            return
        if kind == "solver":
            slot = stage.hist.slots.get(who)
            if slot is None:
                return
            xs = np.array(self.plan["xs"].get(who, [1.0]))
            for p in bl.PROPS:
                for x in (xs, float(xs[-1])):
                    if slot.obj is None:
                        continue
                    got = slot.query(p, x, raw=True)
                    if got[0] == "ok" and got[1] is not x:
                        self.add(f"{who}.{p}", got[1])
        elif kind == "sim":
            sim = stage.sims.get(who)
            if sim is None or op["do"] == "poke":
                return
            x = np.array([0.3, 1.1])
            for p in ("delta_d", "delta_m", "delta_k", "delta_s", "u_e",
                      "v_e", "shape_d", "shape_k"):
                self.ask(who, p, getattr(sim.obj, p), x)
            lim = bl.guard(self.world, lambda: sim.obj.eta_inf)
            if lim[0] == "ok":
                eta = np.array([0.1, 0.5, 0.9])*float(lim[1])
                for p in ("f", "f_p", "f_pp"):
                    self.ask(who, p, getattr(sim.obj, p), eta)
        else:
            if who in stage.bench.readers:
                self.reader(who, *stage.bench.readers[who])
        self.world.state(kind, op.get("op", op.get("do")),
                         op.get("key", op.get("prop", "")),
                         None if res is None else res[0], bool(op.get("hit")))
        self.after = op

    def ask(self, who, name, fn, *args):
        """Keep what a function returns."""
        got = bl.guard(self.world, fn, *args)
        if got[0] == "ok" and all(got[1] is not a for a in args):
            self.add(f"{who}.{name}", got[1])

    def reader(self, who, kind, r):
        """Keep what a reader hands out."""
        if kind == "case":
            self.add(f"{who}.case", r.case)
            for c in ["x_smooth", "u_e_smooth", "du_e_smooth"] \
                    + files.CASE_COLS:
                self.add(f"{who}.{c}", getattr(r, c)())
            for i in range(min(r.station_count(), 4)):
                self.add(f"{who}.station({i})", r.station(i))
                for c in files.CASE_PROF:
                    self.add(f"{who}.{c}({i})", getattr(r, c)(i))
            return
        self.add(f"{who}.filename", r.filename)
        self.add(f"{who}.name", r.name)
        for side, n, cols in (("upper", r.upper_count(), UP),
                              ("lower", r.lower_count(), UP),
                              ("wake", r.wake_count(), UP[:6] + UP[7:8])):
            for c in cols:
                fn = getattr(r, f"{c}_{side}", None)
                if fn is not None:
                    self.add(f"{who}.{c}_{side}", fn())
            for i in range(n)[:3]:
                self.add(f"{who}.{side}({i})", getattr(r, side)(i))

    def check(self, op):
        """Compare all that is kept with its value then."""
        if op is not None and op.get("op", op.get("do")) == "poke" \
                and op["k"] == "reader":
            # its user changed it
            self.kept = [k for k in self.kept
                         if not k[0].startswith(c18.party(op) + ".")]
        for what, val, then in self.kept:
            if frozen(val) != then:
                self.world.fail("answer given before changed",
                                f"{what} by {op}: was {then!r:.300}, is "
                                f"{frozen(val)!r:.300}")
        self.world.probe("answers looked at again", len(self.kept))


def run_script(world, plan, root):
    """Carry out the script and look at everything handed out."""
    gc.disable()
    world.given = []
    keeper = Keeper(world, plan)
    watch.play(world, plan, root, keeper.collect)
    return len(keeper.kept)


class C21(Prop):
    ID = "C21"
    QUICK = 1300
    THOROUGH = 40000
    RULE = ("A run is an interleaved script of operations on 1-6 solvers, "
            "similarity solutions and readers, with callback faults, file "
            "damage and errors, refused calls and interrupts at drawn "
            "instructions. Everything handed out (results, arrays, numbers, "
            "texts, stations) is kept and compared, after every later "
            "operation, with its value when it was handed out. Non-trivial: "
            "answers were kept over at least three further operations. "
            "Distinct by history digest.")
    STATES = ("distinct (kind of object, operation, setting or property, "
              "outcome, interrupted)")
    REAL = ["all of ibl", "scipy", "io, pathlib, importlib.resources"]
    STUB = ["raw files (sim.disk)", "user-supplied objects",
            "integrator step, root finder and quadrature where a fault is "
            "injected"]
    ASSUME = ["what a user changes through a station or an array belongs to "
              "the user and is no longer judged"]

    def gen(self, rng, idx, tier):
        plan = copy.deepcopy(c18.PROP.gen(rng, idx, tier))
        plan["ops"] = [o for o in plan["ops"]
                       if o.get("op") != "scribble"]
        if rng.random() < 0.5:
            watch.interrupts(rng, plan["ops"], 0.3)
        return plan

    def run(self, plan, ctx):
        if not plan["ops"]:
            return
        n = disk.scratch(lambda root: ctx.world("watched", run_script, plan,
                                                root, hang="unjudged"))
        ctx.nontrivial = n > 0 and len(plan["ops"]) > 3

    def lists(self, plan):
        return c18.PROP.lists(plan)


PROP = C21()
