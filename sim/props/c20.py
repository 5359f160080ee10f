"""C20: a march can be cut anywhere and resumed from its reported state."""
import copy
import random

import numpy as np

from sim import bl, flows, hist, seams
from sim.core import Violation
from sim.prop import Prop
from sim.props import c03, c17

FAC = 4.0                # of the tolerances of a single march


def at(x0, x1, f):
    """Return location at a fraction of the range."""
    return x0 + (x1 - x0)*f


def whole(world, plan):
    """March over the whole range at once."""
    env = flows.Env(world)
    slot = bl.Slot(world, env, "s0")
    res = slot.create(copy.deepcopy(plan["cfg"]))
    if res[0] == "exc":
        return {"create": res[:3]}
    out = {"res": slot.solve(plan["x0"], plan["x1"], plan.get("events"),
                             mode=plan.get("mode", "list"))}
    if out["res"][0] == "ok" and out["res"][1]["success"]:
        out["xe"] = out["res"][1]["x_end"][1][0]
    return out


def grids(plan, xe):
    """Return the locations observed in each piece, its ends included."""
    ends = [plan["x0"]] + [at(plan["x0"], xe, c["at"]) for c in plan["cuts"]]
    ends.append(xe)
    return [[at(a, b, f) for f in [0.0] + plan["at"] + [1.0]]
            for a, b in zip(ends, ends[1:])]


def observed(world, plan, xe):
    """March at once and observe wherever the pieces are observed."""
    env = flows.Env(world)
    slot = bl.Slot(world, env, "s0")
    slot.create(copy.deepcopy(plan["cfg"]))
    slot.solve(plan["x0"], plan["x1"], plan.get("events"),
               mode=plan.get("mode", "list"))
    return [slot.observe(xs) for xs in grids(plan, xe)]


def trouble(world, env, slot, op, x):
    """Do something in between which does not belong to the march."""
    kind = op["do"]
    if kind == "fail":
        env.arm([op["fault"]])
        slot.solve(x, op["x1"])
        env.arm([])
    elif kind == "elsewhere":
        slot.solve(op["x0"], op["x1"])
    elif kind == "query":
        slot.query(op["prop"], op["x"])
    elif kind == "bad":
        h = hist.History(world, env)
        h.slots["s0"] = slot
        h.do(dict(op["op"], slot="s0"))


def pieces(world, plan, xe):
    """March piece by piece."""
    env = flows.Env(world)
    seam = seams.IntegratorSeam(world).install()
    cfg = copy.deepcopy(plan["cfg"])
    head = cfg["cls"] == "H"
    slot = bl.Slot(world, env, "s0")
    res = slot.create(copy.deepcopy(cfg))
    if res[0] == "exc":
        return {"create": res[:3]}
    out = []
    x = plan["x0"]
    obs_at = grids(plan, xe)
    for k in range(len(plan["cuts"]) + 1):
        cut = plan["cuts"][k] if k < len(plan["cuts"]) else None
        evs = list(plan.get("events") or [])
        end, mode = plan["x1"], plan.get("mode", "list")
        if cut is not None:
            there = at(plan["x0"], xe, cut["at"])
            if cut["by"] == "end":
                end = there
            else:
                e = {"on": "x", "at": there, "gain": cut["gain"],
                     "dir": cut["dir"], "reason": "TRANSITIONED",
                     "msg": "cut here"}
                evs.insert(0 if cut["first"] else len(evs), e)
                mode = "list"
        spec = cut and cut.get("steps")
        seam.arm([], seams.step_policy(random.Random(cut["seed"]), spec)
                 if spec else None)
        got = slot.solve(x, end, evs or None, mode=mode)
        seam.arm([])
        rec = {"x": x, "res": got}
        out.append(rec)
        if got[0] != "ok" or not got[1]["success"]:
            break
        rec["obs"] = slot.observe(obs_at[k])
        if cut is None:
            break
        x = got[1]["x_end"][1][0]
        state = got[1]["f_end"][1]
        dm = slot.query("delta_m", x)
        sd = slot.query("shape_d", x)
        told = (state if head else
                [float(np.sqrt(state[0]*cfg["nu"]))])
        for t, a in zip(told, (dm, sd)):
            if a[0] == "ok" and not abs(a[1][1][0] - t) <= 1e-10*abs(t):
                world.fail("reported state is not that of the solution",
                           f"piece {k} end {x}: {got[1]}, queried {a}")
        if cut["read"] == "query":
            if dm[0] != "ok" or sd[0] != "ok":
                rec["obs"]["delta_m"] = dm
                break
            dm, sd = dm[1][1][0], sd[1][1][0]
        elif head:
            dm, sd = state
        else:
            dm, sd = float(np.sqrt(state[0]*cfg["nu"])), 2.5
        for op in cut["before"]:
            trouble(world, env, slot, op, x)
        cfg["dm"] = dm
        if head:
            cfg["sd"] = sd
        if cut["on"] == "new":
            slot = bl.Slot(world, env, "s0")
            res = slot.create(copy.deepcopy(cfg),
                              in_ctor=() if cut["first"] else
                              ("nu", "vel", "fit", "crit"))
        elif cut["on"] == "condition":
            res = slot.set("ic", {"kind": "manual", "dm": dm, "dd": dm*sd})
        else:
            keys = ["dm", "sd"] if head else ["dm"]
            for key in keys[::-1 if cut["first"] else 1]:
                res = slot.set(key, cfg[key])
                if res[0] != "ok":
                    break
        if res[0] != "ok":
            world.fail("reported state refused", f"{cut} {res[:3]}")
        for op in cut["after"]:
            trouble(world, env, slot, op, x)
        world.probe(f"resumed on {cut['on']} from {cut['read']} after "
                    f"{cut['by']}")
        world.state(cfg["cls"], cut["by"], cut["on"], cut["read"],
                    cut["first"], [o["do"] for o in cut["before"]],
                    [o["do"] for o in cut["after"]], bool(spec))
    return out


class C20(Prop):
    ID = "C20"
    QUICK = 1500
    THOROUGH = 40000
    RULE = ("A run marches one configuration over its range at once, and "
            "again cut into 2-5 pieces at drawn places (by the requested end "
            "or by a terminating event), each resumed from the state that "
            "was reported, on the same solver or a new one, with failed and "
            "other solves, refused settings and queries in between and drawn "
            "steps of the integrator. Properties everywhere and the end of "
            "the march are compared. Non-trivial: all pieces were marched. "
            "Distinct by history digest.")
    STATES = ("distinct (class, how a piece ended, how it was resumed, what "
              "happened before and after)")
    REAL = ["ibl.ibl_method", "ibl.thwaites_method", "ibl.head_method",
            "ibl.initial_condition", "scipy"]
    STUB = ["user-supplied objects", "choice of step length (drawn)"]
    ASSUME = ["tolerances of C17 times four", "near-tangent and "
              "near-coincident conditions are not judged"]

    def gen(self, rng, idx, tier):
        plan = c17.PROP.gen(rng, idx, tier)
        for key in ("steps", "steps_seed", "again"):
            plan.pop(key)
        x0, x1 = plan["x0"], plan["x1"]
        cfg = plan["cfg"]
        plan["at"] = sorted(round(rng.random(), 4) for _ in range(3))
        n = rng.choice([1, 1, 2, 3, 4])
        cuts = []
        for f in sorted(rng.sample(range(3, 98), n)):
            cut = {"at": f/100, "by": rng.choice(["end", "event"]),
                   "on": rng.choice(["same", "same", "new", "condition"]),
                   "read": rng.choice(["query", "result"]),
                   "first": rng.random() < 0.5,
                   "gain": rng.choice([1.0, -1.0, 3.0]), "dir": 0,
                   "seed": rng.randrange(1 << 30),
                   "before": [], "after": []}
            if rng.random() < 0.3:
                cut["dir"] = (1 if x1 > x0 else -1)*int(
                    np.sign(cut["gain"]))
            if rng.random() < 0.4:
                cut["steps"] = rng.choice([{"p_shrink": 0.3},
                                           {"p_extra": 0.4},
                                           {"p_reject": 0.3}])
            for where in ("before", "after"):
                while rng.random() < 0.35:
                    cut[where].append(self.gen_trouble(rng, cfg, x0, x1))
            cuts.append(cut)
        plan["cuts"] = cuts
        return plan

    @staticmethod
    def gen_trouble(rng, cfg, x0, x1):
        kind = rng.choice(["fail", "elsewhere", "query", "bad"])
        op = {"do": kind}
        if kind == "fail":
            op["x1"] = x1
            op["fault"] = hist.gen_faults(rng, "s0", x0, x1, cfg["cls"],
                                          n=1)[0]
        elif kind == "elsewhere":
            op["x0"] = round(at(x0, x1, rng.uniform(0, 0.5)), 5)
            op["x1"] = round(at(x0, x1, rng.uniform(0.5, 1)), 5)
        elif kind == "query":
            op["prop"] = rng.choice(bl.PROPS)
            op["x"] = round(at(x0, x1, rng.random()), 5)
        else:
            while True:
                op["op"] = hist.gen_bad(rng, cfg, solver_only=True)
                if op["op"]["key"] not in ("dm unsupported",
                                           "sd unsupported"):
                    break
        return op

    def run(self, plan, ctx):
        base = ctx.world("at once", whole, plan)
        if "xe" not in base or not plan["cuts"]:
            return
        x0, xe = plan["x0"], base["xe"]
        span = abs(plan["x1"] - x0)
        if abs(xe - x0) < 0.02*span:
            return
        limit, hits, _ref = c03.expectation(plan)
        first = hits[0] if hits else None
        if (first is not None and first[0] + first[3] >= limit) or \
                (first is None and limit < span):
            ctx.metas[0]["probes"]["not judged: unclear"] = 1
            return
        if len(hits) > 1 and hits[1][0] - hits[1][3] <= first[0] + first[3]:
            return
        want = ctx.world("observed", observed, plan, xe)
        got = ctx.world("cut", pieces, plan, xe)
        if isinstance(got, dict):
            raise Violation("construction differs", str(got))
        ra = base["res"][1]
        n = len(plan["cuts"])
        xtol = c17.XTOL*span*FAC + (first[3] if first else 0)
        for k, rec in enumerate(got):
            res = rec["res"]
            if res[0] != "ok" or not res[1]["success"]:
                raise Violation("piece of a march fails",
                                f"piece {k} from {rec['x']}: {res[:3]}; at "
                                f"once {ra}")
            rb = res[1]
            xb = rb["x_end"][1][0]
            if k < n:
                cut = plan["cuts"][k]
                there = at(x0, xe, cut["at"])
                code = 0 if cut["by"] == "end" else 2
                if abs(xb - there) > 1e-9*span + 1e-12*abs(there) \
                        or rb["code"] != code:
                    raise Violation("piece of a march ends elsewhere",
                                    f"piece {k}: {rb}, wanted {there} by "
                                    f"{cut['by']}; at once {ra}")
            else:
                if (ra["code"], ra["message"], ra["status"]) != (
                        rb["code"], rb["message"], rb["status"]):
                    raise Violation("resumed march ends by another reason",
                                    f"{rb}; at once {ra}")
                if not abs(xb - xe) <= xtol:
                    raise Violation("resumed march ends elsewhere",
                                    f"{rb}; at once {ra}")
            xs = grids(plan, xe)[k]
            if k == n and abs(xb - xe) > 1e-9*span:
                xs = xs[:-1]        # past the end of one of the two
            d = self.compare(plan, want[k], rec["obs"], xs, first)
            if d:
                raise Violation("resumed march differs",
                                f"piece {k} from {rec['x']}: {d}")
        ctx.nontrivial = len(got) == n + 1

    @staticmethod
    def compare(plan, want, got, xs, first):
        """Compare a piece; C17's tolerances apply."""
        part = [f"{x}" for x in xs]
        cut = {p: v if v[0] == "exc" else
               ["ok", [[len(part)], v[1][1][:len(part)]]]
               for p, v in want.items()}
        cut2 = {p: v if v[0] == "exc" else
                ["ok", [[len(part)], v[1][1][:len(part)]]]
                for p, v in got.items()}
        keep = c17.RTOL, dict(c17.LOOSE)
        del first
        try:
            c17.RTOL *= FAC
            for p in c17.LOOSE:
                c17.LOOSE[p] *= FAC
            return c17.C17.compare(plan, {"obs": cut, "xs": xs},
                                   {"obs": cut2}, 0)
        finally:
            c17.RTOL = keep[0]
            c17.LOOSE.update(keep[1])

    def lists(self, plan):
        paths = [["cuts"], ["at"]]
        if plan.get("events"):
            paths.append(["events"])
        for i in range(len(plan["cuts"])):
            for key in ("before", "after"):
                if plan["cuts"][i][key]:
                    paths.append(["cuts", i, key])
        return paths


PROP = C20()
