"""C17: answers do not depend on the steps the integrator happens to take."""
import copy
import random

from sim import bl, flows, refmodel, seams
from sim.core import Violation
from sim.prop import Prop
from sim.props import c03

RTOL = 3e-5
RTOL_SLOPE = 3e-4
XTOL = 3e-6
LOOSE = {"v_e": RTOL_SLOPE, "tau_w": RTOL_SLOPE, "shape_d": RTOL_SLOPE,
         "delta_d": RTOL_SLOPE}


def march(world, plan, spec, seed, xs=None):
    """Solve under one schedule of steps and observe."""
    env = flows.Env(world)
    seam = seams.IntegratorSeam(world).install()
    cfg = plan["cfg"]
    slot = bl.Slot(world, env, "s0")
    res = slot.create(copy.deepcopy(cfg))
    if res[0] == "exc":
        return {"create": res[:3]}
    span = abs(plan["x1"] - plan["x0"])
    rng = random.Random(seed)
    perturb = seams.step_policy(rng, spec)
    cap = spec.get("cap")
    first = spec.get("first")

    def policy(s, solver):
        if first and s.steps == 1:
            solver.h_abs = min(solver.h_abs*first, span)
            world.fault("first step lengthened" if first > 1
                        else "first step shortened")
        perturb(s, solver)
        if cap:
            solver.h_abs = min(solver.h_abs, cap*span)
    seam.arm([], policy if spec else None)
    out = {}
    for k, again in enumerate([True]*plan.get("again", 0) + [False]):
        out["res"] = slot.solve(plan["x0"], plan["x1"], plan.get("events"),
                                mode=plan.get("mode", "list"))
        del k, again
    out["steps"] = len(seam.ts)
    seam.arm([])
    if out["res"][0] == "ok" and out["res"][1]["success"]:
        xe = out["res"][1]["x_end"][1][0]
        fr = plan["at"]
        if xs is None:
            xs = [plan["x0"] + (xe - plan["x0"])*f for f in fr]
        out["xs"] = xs
        out["obs"] = slot.observe(xs)
    world.state(cfg["cls"], out["steps"], bool(plan.get("events")),
                out["res"][1]["code"] if out["res"][0] == "ok" else "exc")
    return out


class CompareScale:
    """Natural sizes of properties that may vanish."""

    @staticmethod
    def tau(plan, base):
        """Return shear stress scales at the locations observed."""
        obs = base["obs"]
        if obs["u_e"][0] != "ok" or obs["delta_m"][0] != "ok":
            return []
        return [abs(bl.RHO*plan["cfg"]["nu"]*u/d)
                for u, d in zip(obs["u_e"][1][1], obs["delta_m"][1][1])
                if d > 0]


class C17(Prop):
    ID = "C17"
    QUICK = 2600
    THOROUGH = 40000
    RULE = ("A run marches one configuration twice, once as the integrator "
            "chooses its steps and once under a drawn schedule (shortened "
            "and lengthened steps, step limits, rejected trial steps, "
            "evaluations at other locations and states that are thrown "
            "away), and compares the result and all properties at drawn "
            "locations. Non-trivial: the schedules differ, i.e. another "
            "number of steps or evaluations thrown away, and the solve "
            "succeeds. Distinct by history digest.")
    STATES = ("distinct (class, number of steps taken, user events, "
              "termination reason)")
    REAL = ["ibl.ibl_method", "ibl.thwaites_method", "ibl.head_method",
            "scipy's Runge-Kutta formulas, error control, interpolation"]
    STUB = ["user-supplied objects", "choice of step length (drawn)"]
    ASSUME = ["tolerance 3e-5 (state, momentum thickness), 3e-4 (properties "
              "with data-fit slopes; 30 times that for the fit with infinite "
              "slope); end locations 3e-6 of the span plus the state's "
              "tolerance divided by the condition's slope",
              "near-tangent and near-coincident conditions are not judged"]

    def gen(self, rng, idx, tier):
        x0, x1 = bl.gen_range(rng)
        cls = rng.choice(["TL", "TN", "H"])
        cfg = bl.gen_cfg(rng, x0, x1, cls=cls)
        if rng.random() < 0.3:
            top = bl.rnd(rng, 2, 20, 3)
            drop = rng.uniform(0.15, 0.5) if cls != "H" else \
                rng.uniform(0.3, 0.7)
            b = -top*drop/(x1 - x0)
            cfg["vel"] = {"form": "lin", "a": round(top - b*x0, 6),
                          "b": round(b, 6),
                          "give": rng.choice(["u", "ud", "udd", "uobj"]),
                          "own": "fresh"}
        if cls != "H" and rng.random() < 0.1:
            x0, x1 = x1, x0
            cfg["dm"] = float(f"{(cfg['nu']*rng.uniform(0.5, 2))**0.5:.4g}")
        plan = {"cfg": cfg, "x0": x0, "x1": x1, "ops": []}
        ref = refmodel.Reference(cfg, x0, x1, n_grid=60)
        evs = bl.gen_events(rng, x0, x1, n=rng.choice([0, 0, 1, 2, 3]),
                            ref=ref)
        if evs:
            plan["events"] = evs
            plan["mode"] = rng.choice(["list", "single"])
        plan["at"] = sorted(round(rng.random(), 6) for _ in range(
            rng.choice([3, 6, 12])))
        plan["at"] = [0.0] + plan["at"] + [1.0]
        plan["again"] = rng.choice([0, 0, 0, 1])
        plan["steps_seed"] = rng.randrange(1 << 30)
        spec = rng.choice([
            {"p_shrink": 0.3}, {"p_extra": 0.4}, {"p_reject": 0.3},
            {"cap": rng.choice([0.01, 0.03, 0.1])},
            {"first": rng.choice([1e-3, 0.1, 30.0, 1e6])},
            {"p_shrink": 0.2, "p_extra": 0.2, "p_reject": 0.2},
            {"p_shrink": 0.1, "p_extra": 0.3, "p_reject": 0.1,
             "first": rng.choice([0.01, 100.0])},
            {"p_extra": 0.9}])
        plan["steps"] = dict(spec)
        return plan

    def run(self, plan, ctx):
        base = ctx.world("undisturbed", march, plan, {}, 0)
        got = ctx.world("scheduled", march, plan, plan["steps"],
                        plan["steps_seed"], base.get("xs"))
        if "create" in base or "create" in got:
            if base != got:
                raise Violation("construction differs", f"{base} {got}")
            return
        # (the steps of the undisturbed march have no limit)
        limit, hits, ref = c03.expectation(dict(plan, cap=None))
        del ref
        span = abs(plan["x1"] - plan["x0"])
        # whether a terminating condition is seen may depend on step length
        # only where conditions are tangent or nearly coincide
        first = hits[0] if hits else None
        if (first is not None and first[0] + first[3] >= limit) or \
                (first is None and limit < span):
            ctx.metas[1]["probes"]["not judged: unclear"] = 1
            return
        close = [h for h in hits if first is not None
                 and h[0] - h[3] <= first[0] + first[3]]
        a, b = base["res"], got["res"]
        if a[0] != b[0] or (a[0] == "exc" and a[1] != b[1]):
            raise Violation("outcome depends on steps", f"{a[:3]} {b[:3]}")
        if a[0] == "exc":
            return
        ra, rb = a[1], b[1]
        if ra["success"] != rb["success"]:
            raise Violation("success depends on steps", f"{ra} {rb}")
        if not ra["success"]:
            return
        if len(close) < 2 and (ra["code"] != rb["code"]
                               or ra["message"] != rb["message"]
                               or ra["status"] != rb["status"]):
            raise Violation("reason depends on steps", f"{ra} {rb}")
        xa, xb = ra["x_end"][1][0], rb["x_end"][1][0]
        tol = XTOL*span + (max(0.3*(first[3] - 2e-5*span), 0)
                           if first else 0)
        if len(close) > 1:
            tol += 2*first[3] + abs(close[-1][0] - first[0])
        if not abs(xa - xb) <= tol:
            raise Violation("end location depends on steps", f"{ra} {rb}")
        scale = max(abs(v) for v in ra["f_end"][1])
        if len(close) < 2 and not bl.close(
                ra["f_end"], rb["f_end"], (20 if first else 2)*RTOL
                + 100*abs(xa - xb)/span,
                1e-9 + (0 if plan["cfg"]["cls"] == "H" else 1e-6*scale)):
            raise Violation("end state depends on steps", f"{ra} {rb}")
        d = self.compare(plan, base, got, tol)
        if d:
            raise Violation("property depends on steps", d)
        ctx.nontrivial = (base["steps"] != got["steps"]
                          or bool(ctx.metas[1]["faults"]))
        if ra["code"]:
            ctx.metas[1]["probes"]["ended by a condition"] = 1

    @staticmethod
    def compare(plan, base, got, xtol):
        """Compare properties at locations that both solutions cover."""
        del xtol
        for p in base["obs"]:
            a, b = base["obs"][p], got["obs"][p]
            if a[0] != b[0]:
                return f"{p}: {a} {b}"
            if a[0] == "exc":
                continue
            va, vb = a[1][1], b[1][1]
            if a[1][0] != b[1][0]:
                return f"{p}: shapes {a[1][0]} {b[1][0]}"
            # thicknesses that vanish within the march carry the integrator's
            # absolute tolerance
            size = max([abs(v) for v in va if v == v] or [0])
            if p == "tau_w":         # zero at separation
                size = max([size] + CompareScale.tau(plan, base))
            tol = LOOSE.get(p, RTOL)
            if plan["cfg"].get("fit") == "White" and p != "delta_m":
                tol *= 30           # its slope is infinite at separation
            for x, u, v in zip(base["xs"], va, vb):
                if u == v or (u != u and v != v):
                    continue
                if not abs(u - v) <= tol*(abs(u) + 0.1*size) + 1e-13:
                    return f"{p} at {x}: {u!r} {v!r} (of {size})"
        return None

    def lists(self, plan):
        paths = [["at"]]
        if plan.get("events"):
            paths.append(["events"])
        return paths

    def simpler(self, plan):
        def once(p):
            p["again"] = 0
            return p

        def drop(key):
            def fn(p):
                del p["steps"][key]
                return p if p["steps"] else None
            return fn
        return [once] + [drop(k) for k in plan["steps"]]


PROP = C17()
