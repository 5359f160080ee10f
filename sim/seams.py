"""Seams to the numerical libraries that the package relies on."""
import importlib

import numpy as np

from sim.flows import EXC


class IntegratorSeam:
    """Stands between solve_ivp and its Runge-Kutta step.

    faults: list of {"step": k, "do": ...}.  k counts the attempts of steps
    since arm(); do: "fail" (the step reports failure), an exception name
    (raised), "shrink" (a smaller step is proposed first), "extra" (additional
    evaluations of the equations which are thrown away), "reject" (a complete
    trial step is computed and thrown away).
    "dense": raise while the interpolant of step k is made.
    """

    def __init__(self, world):
        self.world = world
        self.steps = 0
        self.dense = 0
        self.armed = []
        self.fired = []
        self.ts = []             # locations of accepted steps
        self.policy = None       # function(seam, solver) for step schedules

    def arm(self, faults, policy=None):
        """Set the faults in force and restart counting."""
        self.armed = list(faults)
        self.fired = []
        self.steps = 0
        self.dense = 0
        self.ts = []
        self.policy = policy

    def install(self):
        """Patch the integrator in this process."""
        rk = importlib.import_module("scipy.integrate._ivp.rk")
        seam = self
        orig = rk.RungeKutta._step_impl
        orig_dense = rk.RungeKutta._dense_output_impl

        def _step_impl(self):
            seam.steps += 1
            for i, f in enumerate(seam.armed):
                if f.get("step") != seam.steps:
                    continue
                seam.fired.append((i, "step", f["do"]))
                seam.world.fault(f"integrator step {f['do']}")
                if f["do"] == "fail":
                    return False, self.TOO_SMALL_STEP
                raise EXC[f["do"]](f"injected {i} in step")
            if seam.policy is not None:
                seam.policy(seam, self)
            res = orig(self)
            seam.ts.append(float(self.t))
            return res

        def _dense_output_impl(self):
            seam.dense += 1
            for i, f in enumerate(seam.armed):
                if f.get("dense") != seam.dense:
                    continue
                seam.fired.append((i, "dense", f["do"]))
                seam.world.fault(f"integrator interpolant {f['do']}")
                raise EXC[f["do"]](f"injected {i} in interpolant")
            return orig_dense(self)

        rk.RungeKutta._step_impl = _step_impl
        rk.RungeKutta._dense_output_impl = _dense_output_impl
        return self


def step_policy(rng, spec):
    """Return a policy which perturbs the step sequence.

    spec: {"p_shrink", "p_extra", "p_reject", "p_first"} probabilities.
    """
    def policy(seam, solver):
        span = abs(solver.t_bound - solver.t)
        if rng.random() < spec.get("p_shrink", 0):
            fac = 10**rng.uniform(-1.5, 0)
            solver.h_abs = min(solver.h_abs*fac, max(span, 1e-12))
            seam.world.fault("step shortened")
        if rng.random() < spec.get("p_extra", 0):
            n = rng.randrange(1, 4)
            for _ in range(n):
                # anywhere in the step that would be taken, in any order
                frac = rng.random()
                h = min(solver.h_abs, span)*solver.direction
                y = solver.y + frac*h*solver.f
                solver.fun(solver.t + frac*h, np.array(y))
            seam.world.fault("evaluations thrown away", n)
        if rng.random() < spec.get("p_reject", 0):
            # a whole trial step is made, then refused and shortened
            save = (solver.h_abs, solver.y.copy(), solver.f.copy(),
                    solver.t, solver.K.copy())
            rk = importlib.import_module("scipy.integrate._ivp.rk")
            h = min(solver.h_abs, span)*solver.direction
            if abs(h) > 0:
                rk.rk_step(solver.fun, solver.t, solver.y, solver.f, h,
                           solver.A, solver.B, solver.C, solver.K)
            solver.h_abs, solver.y, solver.f, solver.t = save[:4]
            solver.K[:] = save[4]
            solver.h_abs *= rng.choice([0.2, 0.5, 0.9])
            seam.world.fault("trial step rejected")
    return policy


class SimilaritySeam:
    """Root finder and quadrature used by the similarity solutions."""

    def __init__(self, world):
        self.world = world
        self.armed = []
        self.fired = []
        self.n = {"root": 0, "quad": 0}

    def arm(self, faults):
        """faults: list of {"where": "root"/"quad", "call": k, "do": ...}.

        do: "unconverged" (the routine says so in its own way) or an
        exception name.
        """
        self.armed = list(faults)
        self.fired = []
        self.n = {"root": 0, "quad": 0}

    def _check(self, where):
        self.n[where] += 1
        for i, f in enumerate(self.armed):
            if f.get("where") == where and f["call"] == self.n[where]:
                self.fired.append((i, where, f["do"]))
                self.world.fault(f"{where} {f['do']}")
                if f["do"] == "unconverged":
                    return True
                raise EXC[f["do"]](f"injected {i} in {where}")
        return False

    def install(self):
        """Patch the libraries in this process."""
        zeros = importlib.import_module("scipy.optimize._zeros_py")
        quadp = importlib.import_module("scipy.integrate._quadpack_py")
        orig_bisect = zeros.bisect
        orig_quad = quadp._quad
        seam = self

        def bisect(f, a, b, *args, **kw):
            if seam._check("root"):
                if kw.get("full_output"):
                    kw["maxiter"] = 3
                    kw["disp"] = False
                    r, sol = orig_bisect(f, a, b, *args, **kw)
                    sol.converged = False
                    sol.flag = "convergence error"
                    return r, sol
                raise RuntimeError("injected: failed to converge")
            return orig_bisect(f, a, b, *args, **kw)

        def _quad(*args, **kw):
            bad = seam._check("quad")
            res = orig_quad(*args, **kw)
            if bad and res[-1] == 0:
                # as after the limit of subdivisions: value but flagged
                res = (res[0]*1.001,) + tuple(res[1:-1]) + (1,)
            return res

        zeros.bisect = bisect
        quadp._quad = _quad
        return self
