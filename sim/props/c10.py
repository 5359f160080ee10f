"""C10: accepted settings are all in force, whatever order they came in."""
import copy

from sim import bl, flows, hist
from sim.core import Violation
from sim.prop import Prop
from sim.props import c01


def subject(world, plan):
    """Apply the settings in the drawn order, then solve."""
    h = hist.History(world)
    n_ref = 0
    for i, op in enumerate(plan["ops"]):
        res = h.do(op)
        if res is None:
            return {"skip": True}
        if op["op"] == "new" and res[0] == "exc":
            world.fail("settings refused at construction", str(res[:3]))
        if op["op"] == "set" and res[0] == "exc":
            world.fail("valid setting refused", f"operation {i} {op}: "
                       f"{res[:3]}")
        if op["op"] == "bad":
            if res[0] == "ok":
                return {"skip": True}
            n_ref += 1
            world.fault("refused " + op["key"])
    slot = h.slots["s0"]
    world.state(slot.cfg["cls"], tuple(
        o.get("key", o["op"]) for o in plan["ops"][1:]
        if o["op"] != "query"))
    settings = slot.settings()
    out = slot.outcome(plan["x0"], plan["x1"], plan.get("events"))
    return {"settings": settings, "after": slot.settings(), "out": out,
            "n_ref": n_ref}


def twin(world, plan):
    """Give the final settings at construction as far as that is possible."""
    env = flows.Env(world)
    slot = bl.Slot(world, env, "s0")
    res = slot.create(copy.deepcopy(plan["final"]))
    if res[0] == "exc":
        return {"create": list(res[:3])}
    settings = slot.settings()
    out = slot.outcome(plan["x0"], plan["x1"], plan.get("events"))
    return {"settings": settings, "out": out, "after": slot.settings()}


class C10(Prop):
    ID = "C10"
    QUICK = 2600
    THOROUGH = 50000
    RULE = ("A run is one solver given its final settings in a drawn order, "
            "some at construction, with overwritten values, refused "
            "settings, complete and incomplete solves and queries in "
            "between; reported settings, the solve and all properties are "
            "compared with a solver constructed from the final settings in "
            "another process, with the model of the settings and with the "
            "reference solution. Non-trivial: at least one setting was "
            "overwritten, refused or made after another solve. Distinct by "
            "history digest.")
    STATES = "distinct (class, sequence of settings and other operations)"
    REAL = c01.C01.REAL[:6]
    STUB = ["user-supplied objects"]
    ASSUME = ["an initial condition object replaces earlier initial values; "
              "after one with given thicknesses, thickness and shape factor "
              "are set both or neither (setting one alone has two possible "
              "meanings)"]

    def gen(self, rng, idx, tier):
        x0, x1 = bl.gen_range(rng)
        cls = rng.choice(["TL", "TN", "H", "H"])
        base = bl.gen_cfg(rng, x0, x1, cls=cls)
        final = bl.gen_cfg(rng, x0, x1, cls=cls)
        kind = rng.choice(["plain"]*4 + ["manual over", "manual only", "user",
                                         "stag", "user then manual"])
        must = ["nu", "vel", "crit" if cls == "H" else "fit"]
        seq = []
        inits = []
        pre = None
        if kind in ("plain", "manual over", "user then manual"):
            inits = [("dm", final["dm"])]
            if cls == "H":
                inits.append(("sd", final["sd"]))
            rng.shuffle(inits)
            if kind != "plain":
                dm = float(f"{final['dm']*rng.uniform(0.4, 2):.4g}")
                pre = {"kind": "manual", "dm": dm,
                       "dd": round(dm*rng.uniform(1.3, 1.8), 9)}
                inits.insert(0, ("ic", pre))
            if kind == "user then manual":
                inits.insert(0, ("ic", {"kind": "user", "dm": 0.2, "dd": 0.3,
                                        "sd": 1.5}))
        else:
            dm = final["dm"]
            if kind == "manual only":
                pre = {"kind": "manual", "dm": dm,
                       "dd": round(dm*bl.rnd(rng, 1.35, 1.8, 3), 9)}
            elif kind == "stag":
                pre = {"kind": "stag"}
            else:
                pre = {"kind": "user", "dm": 0.2, "dd": 0.3,
                       "sd": bl.rnd(rng, 1.35, 1.7, 3)}
            final["ic"] = pre
            final["dm"] = final["sd"] = None
            inits = [("ic", pre)]
        if pre and pre["kind"] == "manual" and rng.random() < 0.3:
            # the thickness stays as it was
            before = [("dm", pre["dm"])]
            if cls == "H":
                before.append(("sd", bl.rnd(rng, 1.3, 1.8, 3)))
                rng.shuffle(before)
            inits = before + inits
        # merge: the order of inits is kept among themselves
        others = [(k, final[k]) for k in must]
        rng.shuffle(others)
        seq = list(others)
        pos = sorted(rng.randrange(len(others) + 1) for _ in inits)
        for j, (p, item) in enumerate(zip(pos, inits)):
            seq.insert(p + j, item)
        # earlier values, overwritten later
        for _ in range(rng.choice([0, 1, 2, 4])):
            new = bl.gen_cfg(rng, x0, x1, cls=cls)
            k = rng.choice(must + ["dm", "sd" if cls == "H" else "dm"])
            if k in ("dm", "sd"):
                # only before an initial condition object, or its own value
                last = [i for i, s in enumerate(seq) if s[0] == k]
                first_ic = [i for i, s in enumerate(seq) if s[0] == "ic"]
                if first_ic:
                    at = rng.randrange(first_ic[0] + 1)
                elif last:
                    at = rng.randrange(last[0] + 1)
                else:
                    continue
            else:
                last = [i for i, s in enumerate(seq) if s[0] == k]
                at = rng.randrange(last[-1] + 1)
            seq.insert(at, (k, new[k]))
        # some use objects of the velocity set before for the next one
        vels = [i for i, s in enumerate(seq) if s[0] == "vel"]
        if rng.random() < 0.25:
            if len(vels) == 1:
                new = bl.gen_cfg(rng, x0, x1, cls=cls)
                seq.insert(rng.randrange(vels[0] + 1), ("vel", new["vel"]))
                vels = [i for i, s in enumerate(seq) if s[0] == "vel"]
            again = flows.gen_again(rng, seq[vels[-2]][1], x0, x1,
                                    cls == "H")
            if again:
                seq[vels[-1]] = ("vel", again)
                final["vel"] = again
        # what is given at construction
        cfg = dict(base)
        cfg["dm"] = None
        cfg.pop("sd", None)
        if cls == "H":
            cfg["sd"] = None
        ctor = [k for k in ("nu", "vel", "fit", "crit") if rng.random() < 0.5]
        start = {"cls": cls, "nu": 1.0, "dm": None}
        for k in ctor:
            if k in cfg:
                start[k] = cfg[k]
        if "nu" not in ctor and "nu" not in start:
            start["nu"] = 1.0
        # some of the final values are not set again after construction
        if rng.random() < 0.4 and seq:
            k = rng.choice(must)
            mine = [s for s in seq if s[0] == k]
            if len(mine) == 1:
                seq = [s for s in seq if s[0] != k]
                start[k] = final[k]
                if k not in ctor:
                    ctor.append(k)
        ops = [{"op": "new", "slot": "s0", "cfg": start, "ctor": ctor}]
        model = copy.deepcopy(start)
        model.setdefault("vel", None)
        for i, (k, v) in enumerate(seq):
            for _ in range(rng.choice([0, 0, 0, 1, 2])):
                r = rng.random()
                if r < 0.55:
                    op = hist.gen_bad(rng, model, solver_only=True) \
                        if rng.random() < 0.7 else hist.gen_evil(rng, model)
                    ops.append(dict(op, slot="s0"))
                elif r < 0.85 and model.get("vel"):
                    ops.append({"op": "solve", "slot": "s0", "x0": x0,
                                "x1": round(x0 + (x1 - x0)*rng.uniform(
                                    0.2, 1), 5)})
                else:
                    ops.append({"op": "query", "slot": "s0",
                                "prop": rng.choice(bl.PROPS),
                                "x": round(x0, 5)})
            ops.append({"op": "set", "slot": "s0", "key": k, "val": v})
            hist.model_set(model, k, v)
        plan = {"ops": ops, "final": final, "x0": x0, "x1": x1, "kind": kind}
        if rng.random() < 0.2:
            evs = bl.gen_events(rng, x0, x1)
            if evs:
                plan["events"] = evs
        return plan

    def run(self, plan, ctx):
        got = ctx.world("subject", subject, plan)
        if got.get("skip"):
            return
        want = ctx.world("twin", twin, plan)
        if "create" in want:
            raise Violation("settings refused at construction",
                            str(want["create"]))
        fin = plan["final"]
        # reported values
        for key, name in (("nu", "nu"), ("dm", "dm"), ("sd", "sd")):
            val = fin.get(key)
            if val is None or name not in got["settings"]:
                continue
            for which in ("settings", "after"):
                rep = got[which][name]
                if rep[0] != "ok" or not bl.close(rep[1][1], [float(val)],
                                                  rtol=1e-12):
                    raise Violation("reported setting is not the one made",
                                    f"{name}: set {val}, reported {rep}")
        ic = fin.get("ic")
        if ic and ic["kind"] == "manual":
            rep = got["settings"]["dm"]
            if rep[0] != "ok" or not bl.close(rep[1][1], [ic["dm"]], 1e-12):
                raise Violation("reported setting is not the one made",
                                f"initial condition {ic}, reported {rep}")
            if fin["cls"] == "H":
                rep = got["settings"]["sd"]
                if rep[0] != "ok" or not bl.close(
                        rep[1][1], [ic["dd"]/ic["dm"]], 1e-12):
                    raise Violation("reported setting is not the one made",
                                    f"initial condition {ic}, reported {rep}")
        # initial values which follow from the last solve are not settings
        which = "settings" if not ic or ic["kind"] == "manual" else "after"
        d = bl.differ(want[which], got[which], rtol=1e-12)
        if d:
            raise Violation("settings depend on their order", d)
        d = bl.differ(want["out"], got["out"], rtol=1e-7, atol=1e-30)
        if d:
            raise Violation("solve depends on the order of settings",
                            f"constructed vs set: {d}\n{fin}")
        d = c01.check_reference(fin, {"x0": plan["x0"]}, got["out"])
        if d:
            raise Violation("solution is not that of the settings",
                            f"{d}\n{fin}")
        ctx.nontrivial = (len(plan["ops"]) > 6 or got["n_ref"] > 0)

    def lists(self, plan):
        return [["events"]] if plan.get("events") else []

    def simpler(self, plan):
        def same(p):
            cfg = copy.deepcopy(p["ops"][0]["cfg"])
            for o in p["ops"][1:]:
                if o["op"] == "set":
                    hist.model_set(cfg, o["key"], o["val"])
            keys = ("nu", "vel", "fit", "crit", "ic", "dm", "sd")
            return all(cfg.get(k) == p["final"].get(k) for k in keys)

        out = []
        for i in reversed(range(1, len(plan["ops"]))):
            def drop(p, i=i):
                del p["ops"][i]
                return p if same(p) else None
            out.append(drop)
        return out


PROP = C10()
