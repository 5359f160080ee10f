"""C15: a similarity solution is converged and physical, or is refused."""
import random

import numpy as np

from sim import bl, seams, simil
from sim.core import Violation
from sim.prop import Prop

BUDGET = 150_000_000
TOL_END = 2e-5             # of velocity and slope at the outer limit
TOL = 3e-5                 # of thicknesses


def reference(world, beta, fw, eta):
    """Integrate the problem independently from the wall shear found."""
    from scipy.integrate import solve_ivp

    def rhs(_t, y):
        return [y[1], y[2], -y[0]*y[2] - beta*(1 - y[1]**2),
                1 - y[1], y[1]*(1 - y[1]), y[1]*(1 - y[1]**2)]
    world.ticks.stop()
    sol = solve_ivp(rhs, [0, eta], [0, 0, fw, 0, 0, 0], method="DOP853",
                    rtol=1e-11, atol=1e-13, dense_output=True,
                    events=[lambda _t, y: y[1] - 0.99])
    return {"ok": bool(sol.success), "end": [float(v) for v in sol.y[:, -1]],
            "profile": [[float(v) for v in sol.sol(e*eta)[:3]]
                        for e in simil.ETAS],
            "eta_s": [float(t) for t in sol.t_events[0]]}


def subject(world, plan):
    """Construct or reset under the faults of the plan."""
    integ = seams.IntegratorSeam(world).install()
    num = seams.SimilaritySeam(world).install()
    simil.BUDGET = BUDGET
    s = simil.Sim(world)
    out = {}
    op = plan["ops"][0]
    if op["do"] != "new":
        res = s.create(plan["start"])
        out["start"] = res[:3]
        if res[0] != "ok":
            return out
        out["before"] = s.observe()
    spec = plan.get("steps") or {}
    policy = None
    if spec:
        policy = seams.step_policy(random.Random(plan["steps_seed"]), spec)
    for k, op in enumerate(plan["ops"]):
        integ.arm([f for f in op.get("faults", []) if "where" not in f],
                  policy)
        num.arm([f for f in op.get("faults", []) if "where" in f])
        if op["do"] == "new":
            res = s.create(op["args"])
        else:
            res = s.act(op)
        fired = [f[2] for f in integ.fired + num.fired]
        steps = integ.steps
        integ.arm([])
        num.arm([])
        world.log(op["do"], res[:3], fired, steps)
        world.state(op["do"], res[0], fired, steps//10)
        out[f"op{k}"] = {"res": res, "fired": fired, "steps": steps,
                         "obs": s.observe() if s.obj is not None else None}
    return out


class C15(Prop):
    ID = "C15"
    QUICK = 420
    THOROUGH = 12000
    RULE = ("A run constructs or resets a Blasius or Falkner-Skan solution "
            "that finds wall shear and outer limit itself (sometimes one of "
            "them), with the integrator failing or raising at a drawn step "
            "of a drawn iteration, the root finder or quadrature failing or "
            "raising, an interrupt, or a perturbed step sequence; then, in "
            "two thirds of the runs, repeats it without the fault. "
            "Non-trivial: a fault fired, or a solution was judged. Distinct "
            "by history digest.")
    STATES = ("distinct (operation, outcome, faults fired, tens of "
              "integrator steps taken)")
    REAL = ["ibl.analytic", "scipy integrator, root finder and quadrature"]
    STUB = ["scipy integrator step, root finder and quadrature only where a "
            "fault is injected"]
    ASSUME = ["wedge parameters from -0.198 to 2; the accuracy required is "
              "2e-5 at the outer limit and 3e-5 for thicknesses",
              "an iteration that uses up its work budget under a perturbed "
              "step sequence is not judged"]

    def gen(self, rng, idx, tier):
        kind = rng.choice(["FS", "FS", "FS", "B"])
        do = rng.choice(["new", "beta", "m", "params"])
        if kind == "B":
            do = "params"
        r = rng.random()
        if r < 0.3:
            beta = bl.rnd(rng, -0.198, 0, 4)
        elif r < 0.8:
            beta = bl.rnd(rng, 0, 1.2, 4)
        else:
            beta = rng.choice([bl.rnd(rng, 1.2, 2, 4), 2.0, 1.0, -0.198])
        if kind == "B":
            beta = 0.0
        start = rng.choice([t for t in simil.TABLE if abs(t[0]) < 1.1])
        plan = {"ops": [], "beta": beta}
        u = rng.choice([1.0, 10.0])
        nu = rng.choice([1e-5, 0.1])
        given = {}
        r = rng.random()
        if r < 0.08 and -0.05 <= beta <= 0.9:
            t = min(simil.TABLE, key=lambda t: abs(t[0] - beta))
            given = {"eta": round(t[2]*rng.choice([0.8, 0.9]), 3)}
        if do == "new":
            op = {"do": "new", "args": dict(
                {"kind": kind, "beta": beta, "u": u, "nu": nu}, **given)}
        else:
            if kind == "FS":
                plan["start"] = {"kind": kind, "beta": start[0],
                                 "fw": start[1], "eta": start[2], "u": u,
                                 "nu": nu}
                if do == "params":
                    beta = plan["beta"] = start[0]
            else:
                plan["start"] = {"kind": "B", "u": u, "nu": nu}
            op = dict({"do": do}, **given)
            if do == "beta":
                op["val"] = beta
            elif do == "m":
                op["val"] = "inf" if beta == 2 else beta/(2 - beta)
        plan["given"] = given
        exc = rng.choice(["KeyboardInterrupt", "MemoryError", "ValueError",
                          "RuntimeError", "FloatingPointError",
                          "ZeroDivisionError", "StopIteration"])
        r = rng.random()
        if r < 0.5:
            op["faults"] = [{"step": int(10**rng.uniform(0, 3.9)),
                             "do": rng.choice(["fail", "fail", exc])}]
        elif r < 0.56:
            op["faults"] = [{"dense": rng.randrange(1, 60), "do": exc}]
        elif r < 0.66:
            op["faults"] = [{"where": "root", "call": 1,
                             "do": rng.choice(["unconverged", exc])}]
        elif r < 0.76:
            op["faults"] = [{"where": "quad", "call": 1,
                             "do": rng.choice(["unconverged", exc])}]
        elif r < 0.84:
            plan["steps"] = rng.choice([{"p_extra": 0.2}, {"p_reject": 0.05},
                                        {"p_shrink": 0.02}])
            plan["steps_seed"] = rng.randrange(1 << 30)
        plan["ops"].append(op)
        if "faults" in op and rng.random() < 0.3:
            again = dict(op)
            del again["faults"]
            plan["ops"].append(again)
        return plan

    def run(self, plan, ctx):
        hang = "return" if plan.get("steps") else "violation"
        out = ctx.world("subject", subject, plan, hang=hang)
        if isinstance(out, tuple):
            return
        if "start" in out and out["start"][0] != "ok":
            raise Violation("cannot construct", str(out["start"]))
        before = out.get("before")
        meta = ctx.metas[0]

        def probe(name):
            meta["probes"][name] = meta["probes"].get(name, 0) + 1
        for k, op in enumerate(plan["ops"]):
            step = out[f"op{k}"]
            res = step["res"]
            if step["fired"]:
                ctx.nontrivial = True
                if res[0] == "ok":
                    raise Violation(
                        "failure accepted as a solution",
                        f"{op} fired {step['fired']} at one of "
                        f"{step['steps']} steps")
                do = step["fired"][0]
                if do not in ("fail", "unconverged") and do not in [
                        c[0] for c in res[3]]:
                    raise Violation("failure not reported",
                                    f"{op} fired {do}, raised {res}")
            if res[0] != "ok":
                d = simil.same(before, step["obs"])
                if d:
                    raise Violation("failed reset changed the solution",
                                    f"{op} {res}: {d}")
                probe("refused without fault" if not step["fired"]
                      else "fault reported")
                continue
            self.judge(plan, ctx, op, step["obs"])
            probe("solution judged")
            ctx.nontrivial = True
            before = step["obs"]

    def judge(self, plan, ctx, op, obs):
        """Check the boundary value problem."""
        def get(name):
            if obs[name][0] != "ok":
                raise Violation("accepted solution does not answer",
                                f"{op} {name} {obs[name]}")
            v = obs[name][1][1]
            return v[0] if len(v) == 1 else v
        beta = plan["beta"]
        fw, eta = get("fw_pp"), get("eta_inf")
        text = f"{op} beta {beta}: fw_pp {fw} eta_inf {eta}"
        if not (np.isfinite(fw) and np.isfinite(eta) and fw > 0 and eta > 0):
            raise Violation("solution is not physical", text)
        if "beta" in obs and abs(get("beta") - beta) > 1e-12:
            raise Violation("solution is of another parameter", text)
        ref = ctx.world("reference", reference, beta, fw, eta)
        f, f_p, f_pp = get("f"), get("f_p"), get("f_pp")
        if max(abs(f[0]), abs(f_p[0])) > 1e-9:
            raise Violation("not zero at the wall", f"{text} {f} {f_p}")
        worst = max(abs(a - b) for k in range(len(f))
                    for a, b in zip((f[k], f_p[k], f_pp[k]),
                                    ref["profile"][k]))
        if abs(f_p[-1] - 1) > TOL_END:
            raise Violation("outer velocity not reached",
                            f"{text} f' {f_p[-1]!r}")
        if not plan["given"] and abs(f_pp[-1]) > TOL_END:
            raise Violation("outer velocity not reached with zero slope",
                            f"{text} f'' {f_pp[-1]!r}")
        if not worst < 2e-5:
            raise Violation("profile does not satisfy the equation",
                            f"{text} {worst} {f} {f_p} {f_pp} "
                            f"{ref['profile']}")
        if plan["given"]:
            return
        want = {"eta_d": ref["end"][3], "eta_m": ref["end"][4],
                "eta_k": ref["end"][5]}
        for name, val in want.items():
            if not abs(get(name) - val) <= TOL*(1 + abs(val)) + 3*worst:
                raise Violation("thickness is not that of the profile",
                                f"{text} {name} {get(name)!r} not {val!r}")
        if not any(abs(get("eta_s") - t) < 1e-4 for t in ref["eta_s"]):
            raise Violation("thickness is not that of the profile",
                            f"{text} eta_s {get('eta_s')!r} not "
                            f"{ref['eta_s']}")
        meta = ctx.metas[0]
        meta["states"].add(repr(("worst", int(np.log10(worst + 1e-12))))
                           .encode())

    def simpler(self, plan):
        def earlier(p):
            fs = p["ops"][0].get("faults")
            if not fs or "step" not in fs[0] or fs[0]["step"] < 2:
                return None
            fs[0]["step"] //= 4
            return p

        def no_steps(p):
            p.pop("steps", None)
            return p
        return [no_steps, earlier, earlier, earlier]


PROP = C15()
