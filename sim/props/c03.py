"""C03: a march stops at the first terminating condition and says which."""
import copy
import random

import numpy as np

from sim import bl, flows, refmodel, seams
from sim.core import Violation
from sim.prop import Prop


# --------------------------------------------------------------------------
# a method of a simulated developer, with several conditions of its own
# --------------------------------------------------------------------------
class UserRef:
    """Exact solution of the simulated method: y_i = a + b x + c x^2."""

    def __init__(self, cfg, x0, x1, events, n_grid=400):
        self.cfg = cfg
        self.x0, self.x1 = x0, x1
        self.ok = True
        self.x_reached = x1
        xs = np.linspace(x0, x1, n_grid + 1)
        self.ys = np.array([self.sol(float(x)) for x in xs]).T
        self.xs = xs

    def sol(self, x):
        return np.array([a + b*x + c*x*x for a, b, c in self.cfg["poly"]])


def make_user_method(cfg, env, slot):
    """Return a solver for the simulated method."""
    from ibl.ibl_method import IBLMethod

    class Method(IBLMethod):
        """Method whose solution is known exactly."""

        def _ode_setup(self):
            y = UserRef.sol(type("R", (), {"cfg": cfg})(), cfg["x0"])
            return np.array(y, dtype=float), 1e-9, 1e-12

        def _ode_impl(self, x, f):
            env.hit(f"{slot}.rhs", x)
            return np.array([b + 2*c*x for _a, b, c in cfg["poly"]])

        def v_e(self, x):
            return np.zeros_like(x)

        delta_d = delta_m = delta_k = shape_d = shape_k = v_e

        def tau_w(self, x, rho):
            return np.zeros_like(x)

        dissipation = tau_w

    m = Method(nu=1e-5, u_e=lambda x: 1.0 + 0*x, du_e=lambda x: 0.0*x,
               d2u_e=lambda x: 0.0*x)
    built = [flows.make_event(e, env, f"{slot}.own{i}")
             for i, e in enumerate(cfg["own"])]
    how = cfg["how"]
    if how == "set list":
        m._set_kill_event(list(built))
    elif how == "add list":
        m._add_kill_event(list(built))
    elif built:
        m._set_kill_event(built[0])
        for b in built[1:]:
            m._add_kill_event(b)
    return m


# --------------------------------------------------------------------------
# judging
# --------------------------------------------------------------------------
def crossings(fun, xs, ys, sol):
    """Return (values, list of (k, x, up)) of all changes of sign."""
    vals = np.array([fun(float(x), ys[:, k]) for k, x in enumerate(xs)])
    out = []
    for k in range(len(xs) - 1):
        a, b = vals[k], vals[k + 1]
        if not (np.isfinite(a) and np.isfinite(b)) or a == b:
            continue
        if (a < 0 <= b) or (a > 0 >= b) or (a == 0 and k == 0):
            lo, hi = float(xs[k]), float(xs[k + 1])
            for _ in range(60):
                mid = 0.5*(lo + hi)
                fm = fun(mid, sol(mid))
                if (fm > 0) == (a > 0) and (fm != 0 or a == 0):
                    lo = mid
                else:
                    hi = mid
            out.append((k, 0.5*(lo + hi), b > a))
    return vals, out


def expectation(plan):
    """Return (skip reason, [(x, which, tol)] of terminal hits in order, ref).

    Judging is left out where the answer legitimately depends on rounding or
    on step length: tangent crossings, and crossings and returns within one
    step.
    """
    cfg, x0, x1 = plan["cfg"], plan["x0"], plan["x1"]
    events = plan.get("events") or []
    span = abs(x1 - x0)
    if cfg["cls"] == "USR":
        ref = UserRef(cfg, x0, x1, events)
        conds = [(("own", i), e) for i, e in enumerate(cfg["own"])]
    else:
        ref = refmodel.Reference(cfg, x0, x1, n_grid=300)
        conds = [("sep", None)]
    conds += [(i, e) for i, e in enumerate(events)]
    xs = np.linspace(x0, ref.x_reached, ref.ys.shape[1])
    step = plan["cap"]*span if plan.get("cap") else None
    hits = []
    unclear = []             # locations from which on nothing is certain
    sgn = 1 if x1 >= x0 else -1
    for which, e in conds:
        if which == "sep":
            fun = ref.built_in
            scale = 0.22 if ref.fit is not None else cfg["crit"]
            direction, terminal = 0, True
        else:
            def fun(x, y, e=e):
                return flows.event_value(e, x, y)
            gain = abs(e.get("gain", 1.0))
            scale = gain*(abs(e["at"]) if e["on"] == "f" else span*1e-3)
            direction, terminal = e.get("dir", 0), e.get("terminal", True)
        if not terminal:
            continue
        vals, cross = crossings(fun, xs, ref.ys, ref.sol)
        n_cross = len(cross)
        # near misses, and a value of zero up to rounding at the start
        mag = np.abs(vals)
        if mag[0] < 1e-6*scale:
            unclear.append(-span)
        for k in range(1, len(xs) - 1):
            if (mag[k] < 3e-4*scale and mag[k] <= mag[k - 1]
                    and mag[k] <= mag[k + 1]
                    and not any(abs(k - c[0]) <= 2 for c in cross)):
                unclear.append(sgn*(xs[k] - x0) - 0.02*span)
        if (mag[-1] < (3e-7 if e is not None and e["on"] == "x" else
                       3e-4)*scale and not any(len(xs) - 3 <= c[0]
                                               for c in cross)):
            unclear.append(sgn*(xs[-1] - x0) - 0.02*span)
        for j, (k, xr, up) in enumerate(cross):
            d = sgn*(xr - x0)
            k0, k1 = max(k - 1, 0), min(k + 2, len(xs) - 1)
            slope = abs((vals[k1] - vals[k0])/(xs[k1] - xs[k0]))
            tol = 2e-5*span + (3e-5*scale/slope if slope > 0 else np.inf)
            exact = e is not None and e["on"] == "x"
            if exact:
                # no solution is needed to know where this is met
                tol = 1e-9*span
            if which == "sep" and cfg.get("fit") == "White":
                tol += 1e-3*span     # infinite slope at separation
            if not tol < 0.02*span:
                unclear.append(d - 0.1*span)
                continue
            near = [abs(c[1] - xr) for i, c in enumerate(cross) if i != j]
            if near and (step is None or min(near) < 2.5*step):
                unclear.append(d - tol)
                # the integrator may step over a pair of crossings
                unclear.append(d - (step or span))
            edge = 1e-8 if exact else 1e-4
            if d < edge*span or d > span*(1 - edge):
                unclear.append(d - 1e-3*span)
                continue
            if direction == 0 or (direction > 0) == bool(up):
                hits.append((d, xr, which, tol))
        del n_cross
    hits.sort(key=lambda h: h[0])
    limit = min(unclear) if unclear else np.inf
    if not ref.ok:
        limit = min(limit, sgn*(ref.x_reached - x0) - 0.05*span)
    return limit, hits, ref


def reason_of(plan, which):
    """Return (reason name, message) of a condition."""
    if which == "sep":
        return "SEPARATED", ""
    if isinstance(which, tuple):
        e = plan["cfg"]["own"][which[1]]
    else:
        e = plan["events"][which]
    return e["reason"], e["msg"]


CODES = {"REACHED_END": 0, "SEPARATED": 1, "TRANSITIONED": 2, "UNKNOWN": 3}
TEXTS = {"REACHED_END": "Completed", "SEPARATED": "Separated",
         "TRANSITIONED": "Transition", "UNKNOWN": "Unknown Event"}


def judge(plan, res, exp):
    """Return (kind, detail) of the violation, or None; and a summary."""
    limit, hits, ref = exp
    x0, x1 = plan["x0"], plan["x1"]
    span = abs(x1 - x0)
    first = hits[0] if hits else None
    if first is not None and first[0] + first[3] >= limit:
        return None, "unclear"
    if first is None and limit < span:
        return None, "unclear"
    if res[0] != "ok":
        return ("solve raised", str(res[:3])), "raised"
    r = res[1]
    if not r["success"]:
        return ("solve not successful", str(r)), "failed"
    xe = r["x_end"][1][0]
    if first is None:
        if r["code"] != CODES["REACHED_END"] or \
                r["status"] != TEXTS["REACHED_END"]:
            return ("terminated although no condition was met", str(r)), "end"
        if abs(xe - x1) > 1e-12*max(1, abs(x1)):
            return ("wrong end location", str(r)), "end"
        hit = "end"
        cand = []
    else:
        if r["code"] == CODES["REACHED_END"]:
            return ("completed although a condition was met",
                    f"{r} expected {first}"), "hit"
        cand = [h for h in hits if h[0] - h[3] <= first[0] + first[3]]
        good = [h for h in cand if abs(xe - h[1]) <= h[3]]
        if not good:
            return ("stopped at wrong location",
                    f"{r} expected {cand[:3]}"), "hit"
        names = [reason_of(plan, h[2]) for h in good]
        if not any(r["code"] == CODES[n] and r["status"] == TEXTS[n]
                   and r["message"] == (f"{TEXTS[n]}: {m}" if m else TEXTS[n])
                   for n, m in names):
            return ("wrong reason or message",
                    f"{r} expected one of {names}"), "hit"
        hit = str(good[0][2])
    want = np.asarray(ref.sol(xe), dtype=float)
    got = np.array(r["f_end"][1])
    if list(r["f_end"][0]) != [len(want)]:
        return ("state of wrong size", str(r)), "hit"
    err = np.abs(got - want)
    tol = 3e-4*np.abs(want) + 1e-10
    if plan["cfg"]["cls"] in ("TL", "TN"):
        tol = tol + 1e-5*float(np.max(np.abs(ref.ys)))
    if not np.all(err <= tol):
        return ("state at end is not the solution there",
                f"{r} expected {want.tolist()}"), "hit"
    return None, hit


def subject(world, plan):
    """Solve under the chosen step lengths."""
    env = flows.Env(world)
    seam = seams.IntegratorSeam(world).install()
    cfg = plan["cfg"]
    slot = bl.Slot(world, env, "s0")
    if cfg["cls"] == "USR":
        slot.obj = make_user_method(cfg, env, "s0")
        slot.cfg = cfg
    else:
        res = slot.create(copy.deepcopy(cfg))
        if res[0] == "exc":
            return {"create": res[:3]}
    span = abs(plan["x1"] - plan["x0"])
    for prev in plan["ops"]:
        slot.solve(plan["x0"], prev["x1"], prev.get("events"))
    rng = random.Random(plan["steps_seed"])
    spec = plan["steps"]
    perturb = seams.step_policy(rng, spec)
    cap = plan.get("cap")

    def policy(s, solver):
        perturb(s, solver)
        if cap:
            solver.h_abs = min(solver.h_abs, cap*span)
    seam.arm([], policy)
    res = slot.solve(plan["x0"], plan["x1"], plan.get("events"),
                     mode=plan.get("mode", "list"))
    steps = len(seam.ts)
    seam.arm([])
    out = {"res": res, "steps": steps}
    if res[0] == "ok" and res[1]["success"] and cfg["cls"] != "USR":
        out["end"] = slot.observe([res[1]["x_end"][1][0]],
                                  ["delta_m", "shape_d"])
    return out


class C03(Prop):
    ID = "C03"
    QUICK = 2800
    THOROUGH = 40000
    RULE = ("A run is one march of a real method (or of a simulated "
            "developer's method with several conditions of its own) with 0-5 "
            "user events, both marching directions, under a drawn sequence "
            "of step lengths, rejected steps and extra evaluations; result "
            "compared with the crossings of the reference solution. "
            "Non-trivial: at least two conditions in force and the expected "
            "answer is certain. Distinct by history digest.")
    STATES = ("distinct (class, number of conditions in force, condition "
              "that ended the march, direction, number of steps)")
    REAL = ["ibl.ibl_method", "ibl.thwaites_method", "ibl.head_method",
            "scipy.integrate event location"]
    STUB = ["user-supplied objects", "step-length choice of scipy's "
            "integrator (real steps, drawn lengths)"]
    ASSUME = ["a crossing is met when the value changes sign between steps "
              "(documented behaviour of the integrator): pairs of crossings "
              "closer than the step length and tangent crossings are not "
              "judged"]

    def gen(self, rng, idx, tier):
        plan = {"ops": []}
        if rng.random() < 0.2:
            n = rng.choice([1, 2, 3])
            x0 = bl.rnd(rng, 0, 1, 3)
            x1 = round(x0 + rng.choice([1, -1])*rng.uniform(0.5, 2), 3)
            cfg = {"cls": "USR", "x0": x0,
                   "poly": [[bl.rnd(rng, -1, 1, 3), bl.rnd(rng, -2, 2, 3),
                             bl.rnd(rng, -1, 1, 3)] for _ in range(n)],
                   "how": rng.choice(["set list", "add list", "mixed"])}
            ref = UserRef(cfg, x0, x1, [])
            cfg["own"] = bl.gen_events(rng, x0, x1, n=rng.choice([0, 1, 2, 3]),
                                       ref=ref)
            for k, e in enumerate(cfg["own"]):
                e["msg"] = rng.choice(["", f"own {k}"])
        else:
            x0, x1 = bl.gen_range(rng)
            cls = rng.choice(["TL", "TN", "H"])
            cfg = bl.gen_cfg(rng, x0, x1, cls=cls)
            if rng.random() < 0.45:
                # let it separate somewhere
                lo = cfg["vel"]
                top = bl.rnd(rng, 2, 20, 3)
                drop = rng.uniform(0.15, 0.5) if cls != "H" else \
                    rng.uniform(0.3, 0.7)
                b = -top*drop/(x1 - x0)
                cfg["vel"] = {"form": "lin", "a": round(top - b*x0, 6),
                              "b": round(b, 6), "give":
                              rng.choice(["u", "ud", "udd", "uobj"]),
                              "own": lo.get("own", "fresh")
                              if lo.get("own") not in ("int", "alias")
                              else "fresh"}
            if cls != "H" and rng.random() < 0.12:
                x0, x1 = x1, x0
                # thick enough not to vanish when marching upstream
                cfg["dm"] = float(f"{(cfg['nu']*rng.uniform(0.5, 2))**0.5:.4g}")
            ref = refmodel.Reference(cfg, x0, x1, n_grid=60)
        plan.update(cfg=cfg, x0=x0, x1=x1)
        evs = bl.gen_events(rng, x0, x1, n=rng.choice([0, 1, 2, 3, 4, 5]),
                            ref=ref)
        for k, e in enumerate(evs):
            if rng.random() < 0.15:
                e["msg"] = ""
        if evs:
            plan["events"] = evs
            plan["mode"] = rng.choice(["list", "single"])
        if rng.random() < 0.3:
            plan["ops"] = [{"x1": round(x0 + (x1 - x0)*rng.uniform(0.3, 1), 4),
                            "events": bl.gen_events(rng, x0, x1, ref=ref)}
                           for _ in range(rng.choice([1, 2]))]
        plan["cap"] = rng.choice([None, None, 0.02, 0.05, 0.11])
        plan["steps_seed"] = rng.randrange(1 << 30)
        plan["steps"] = rng.choice([
            {}, {}, {"p_shrink": 0.3}, {"p_extra": 0.4},
            {"p_reject": 0.3}, {"p_shrink": 0.2, "p_extra": 0.2,
                                "p_reject": 0.2}])
        return plan

    def run(self, plan, ctx):
        got = ctx.world("subject", subject, plan)
        if "create" in got:
            return
        exp = expectation(plan)
        bad, hit = judge(plan, got["res"], exp)
        if bad:
            raise Violation(bad[0], bad[1] + f"\nconfiguration {plan['cfg']}")
        if "end" in got and hit not in ("unclear",):
            r = got["res"][1]
            f = r["f_end"][1]
            cfg = plan["cfg"]
            want = f[0] if cfg["cls"] == "H" else (f[0]*cfg["nu"])**0.5 \
                if f[0] >= 0 else None
            dm = got["end"]["delta_m"]
            if want is not None and (dm[0] != "ok" or abs(
                    dm[1][1][0] - want) > 1e-6*abs(want)):
                raise Violation("state and solution disagree at the end",
                                f"{want} {dm}")
        n = 1 + len(plan.get("events") or []) + len(
            plan["cfg"].get("own", [0])) - 1
        ctx.nontrivial = n >= 2 and hit != "unclear"
        meta = ctx.metas[0]
        meta["probes"][f"ended by {'user event' if hit.isdigit() else hit}"
                       if not hit.startswith("(") else "ended by own event"] \
            = 1
        if plan["x1"] < plan["x0"]:
            meta["probes"]["upstream march"] = 1
        meta["states"].add(repr((plan["cfg"]["cls"], n, hit,
                                 plan["x1"] > plan["x0"],
                                 got["steps"])).encode())

    def lists(self, plan):
        paths = [["ops"]]
        if plan.get("events"):
            paths.append(["events"])
        if plan["cfg"].get("own"):
            paths.append(["cfg", "own"])
        return paths

    def simpler(self, plan):
        def no_steps(p):
            p["steps"] = {}
            return p

        def no_cap(p):
            p["cap"] = None
            return p

        def plain_vel(p):
            p["cfg"]["vel"]["own"] = "fresh"
            return p
        return [no_steps, no_cap, plain_vel]


PROP = C03()
