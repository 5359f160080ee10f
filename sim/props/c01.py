"""C01: a solve depends only on the set-up in force."""
import numpy as np

from sim import bl, flows, hist, refmodel
from sim.core import Violation
from sim.prop import Prop


def subject(world, plan):
    """Execute the history, then the solve that is judged."""
    h = hist.History(world)
    for op in plan["ops"]:
        h.do(op)
    fin = plan["final"]
    slot = h.slots.get(fin["slot"])
    if slot is None:
        return None
    cfg = slot.cfg
    if slot.solved is not None:
        world.probe("solver had an earlier solution")
    out = slot.outcome(fin["x0"], fin["x1"], fin.get("events"),
                       mode=fin.get("mode", "list"))
    changed = h.env.changed_arrays()
    return {"cfg": cfg, "out": out, "settings": slot.settings(),
            "changed": changed, "callbacks": h.env.calls}


def twin(world, cfg, fin):
    """Give a new solver the same settings and solve."""
    env = flows.Env(world)
    slot = bl.Slot(world, env, fin["slot"])
    res = slot.create(cfg, in_ctor=())
    if res[0] == "exc":
        return {"out": {"create": list(res[:3])}, "settings": None}
    out = slot.outcome(fin["x0"], fin["x1"], fin.get("events"),
                       mode=fin.get("mode", "list"))
    return {"out": out, "settings": slot.settings()}


def check_reference(cfg, fin, out, world_probe=None):
    """Compare reported properties with the reference model."""
    if cfg.get("ic") or "obs" not in out:
        return None
    if cfg["dm"] is None or (cfg["cls"] == "H" and cfg.get("sd") is None):
        return None
    res = out["solve"][1]
    xe = res["x_end"][1][0]
    if abs(xe - fin["x0"]) < 1e-9:
        return None
    ref = refmodel.Reference(cfg, fin["x0"], xe, n_grid=2)
    if not ref.ok:
        return None
    loose = cfg["vel"].get("give") in ("u", "ud", "pts", "dpts", "spline")
    for k, x in enumerate(out["xs"]):
        want = ref.props(x, bl.RHO)
        if cfg.get("fit") == "Cebeci-Bradshaw" and abs(want["_lam"]) < 1e-3:
            continue
        if not abs(want.get("_lam", 0.0)) < 1.0:
            continue            # equations grow without bound out here
        for p in bl.PROPS:
            if p not in want:
                continue
            got = out["obs"][p]
            if got[0] != "ok":
                return f"{p} refused after successful solve: {got}"
            g = got[1][1][k]
            w = want[p]
            if w != w or abs(w) == np.inf:
                continue
            tol = 3e-4*abs(w) + 1e-12
            if p == "v_e":
                tol = (2e-3 if loose else 3e-4)*want["_v_scale"] + 1e-12
            if p == "tau_w":
                scale = abs(bl.RHO*cfg["nu"]*want["u_e"]/want["delta_m"])
                tol += 1e-4*scale
                if abs(w) < 0.05*scale:     # steep close to separation
                    tol += 2e-2*scale
            if p == "du_e":
                tol += 1e-7*abs(want["u_e"])
            if not abs(g - w) <= tol:
                return (f"{p} at x={x!r} is {g!r}, reference {w!r} "
                        f"(x_end={xe!r})")
    return None


class C01(Prop):
    ID = "C01"
    QUICK = 2600
    THOROUGH = 40000
    RULE = ("A run is a history of settings, solves (with events and injected "
            "callback faults), queries and refused calls on 1-3 solvers "
            "followed by one solve, whose outcome is compared with a new "
            "solver in a new process and with the reference model. "
            "Non-trivial: the judged solver had at least one other solve or "
            "refused call before and the final solve evaluated the equations."
            " Distinct by history digest.")
    STATES = ("distinct (class, fit, velocity form, reported reason, kinds of "
              "the last three operations) of the judged solve")
    REAL = ["ibl.ibl_method", "ibl.thwaites_method", "ibl.head_method",
            "ibl.initial_condition", "ibl.skin_friction", "scipy.integrate",
            "scipy.interpolate", "ibl.analytic (as noise)"]
    STUB = ["user-supplied velocity, data fit, event and initial condition "
            "objects (simulated, faults injected)"]
    ASSUME = ["reference model integrates the documented equations with "
              "DOP853 at rtol 1e-10; agreement within 3e-4 is required"]

    def gen(self, rng, idx, tier):
        n_slots = rng.choice([1, 1, 2, 3])
        n_ops = rng.choice([2, 4, 6, 9, 14])
        ops, cfgs, ranges = hist.gen_history(rng, n_slots, n_ops)
        name = rng.choice(sorted(cfgs))
        x0, x1 = ranges[name]
        fin = {"slot": name, "x0": x0, "x1": x1}
        if rng.random() < 0.4:
            evs = bl.gen_events(rng, x0, x1)
            if evs:
                fin["events"] = evs
                fin["mode"] = rng.choice(["list", "single"])
        return {"ops": ops, "final": fin}

    def run(self, plan, ctx):
        got = ctx.world("subject", subject, plan)
        if got is None:
            return
        fin = plan["final"]
        want = ctx.world("twin", twin, got["cfg"], fin)
        d = bl.differ(want["out"], got["out"], rtol=1e-9)
        if d:
            raise Violation("outcome depends on the past",
                            f"new solver vs used solver: {d}\n"
                            f"settings {got['cfg']}")
        d = bl.differ(want["settings"], got["settings"], rtol=1e-9)
        if d:
            raise Violation("settings depend on the past", d)
        if got["changed"]:
            raise Violation("array of the user changed",
                            str(got["changed"][:3]))
        d = check_reference(got["cfg"], fin, got["out"])
        if d:
            raise Violation("solution does not satisfy the equations",
                            f"{d}\nsettings {got['cfg']}")
        others = [o["op"] for o in plan["ops"] if o.get("slot") == fin["slot"]
                  and o["op"] in ("solve", "bad")]
        ctx.nontrivial = bool(others) and got["callbacks"] > 0
        cfg = got["cfg"]
        status = got["out"]["solve"]
        reason = status[1]["status"] if status[0] == "ok" else status[1]
        fit = cfg.get("fit")
        ctx.metas[0]["states"].add(repr((
            cfg["cls"], fit if isinstance(fit, str) else "custom",
            cfg["vel"]["form"], cfg["vel"]["give"], reason,
            tuple(o["op"] for o in plan["ops"][-3:]))).encode())

    def lists(self, plan):
        paths = [["ops"]]
        if plan["final"].get("events"):
            paths.append(["final", "events"])
        for i, op in enumerate(plan["ops"]):
            for key in ("events", "faults"):
                if op.get(key):
                    paths.append(["ops", i, key])
        return paths


PROP = C01()
