"""Independent reference models of the boundary layer methods.

Written from the equations in the documentation of the package; they share no
code with it and use another integrator at tighter tolerances.
"""
import math

import numpy as np
from scipy.integrate import solve_ivp
from scipy.interpolate import CubicSpline

from sim import flows

_LAM = [-0.090, -0.088, -0.086, -0.084, -0.080, -0.076, -0.072, -0.068,
        -0.064, -0.060, -0.056, -0.052, -0.048, -0.040, -0.032, -0.016, 0.0,
        0.016, 0.032, 0.048, 0.064, 0.080, 0.100, 0.120, 0.140, 0.200, 0.250]
_SHEAR = [0.000, 0.015, 0.027, 0.038, 0.056, 0.072, 0.085, 0.095, 0.104,
          0.113, 0.122, 0.130, 0.138, 0.153, 0.168, 0.195, 0.220, 0.244,
          0.268, 0.291, 0.313, 0.333, 0.359, 0.382, 0.404, 0.463, 0.500]
_SHAPE = [3.55, 3.49, 3.44, 3.39, 3.30, 3.22, 3.15, 3.09, 3.04, 2.99, 2.94,
          2.90, 2.87, 2.81, 2.75, 2.67, 2.61, 2.55, 2.49, 2.44, 2.39, 2.34,
          2.28, 2.23, 2.18, 2.07, 2.00]
_SPL_SHEAR = CubicSpline(_LAM, _SHEAR)
_SPL_SHAPE = CubicSpline(_LAM, _SHAPE)
_SPL_SHAPE_P = _SPL_SHAPE.derivative()


class Fit:
    """Shear and shape functions of Thwaites' method for scalar lambda."""

    def __init__(self, spec):
        self.spec = spec
        self.lo, self.hi = {"Spline": (-0.09, 0.25),
                            "White": (-0.09, math.inf),
                            "Cebeci-Bradshaw": (-0.1, 0.1),
                            "Drela": (-0.09, math.inf)}.get(
                                spec if isinstance(spec, str) else "",
                                (-math.inf, math.inf))
        if not isinstance(spec, str):
            self._custom = flows.fit_math(spec)

    def clamp(self, z):
        return min(max(z, self.lo), self.hi)

    def shear(self, z):
        z = self.clamp(z)
        if not isinstance(self.spec, str):
            return float(self._custom[0](z))
        if self.spec == "Spline":
            return float(_SPL_SHEAR(z))
        if self.spec == "White":
            return max(z + 0.09, 0.0)**0.62
        if self.spec == "Cebeci-Bradshaw":
            if z < 0:
                return 0.22 + 1.402*z + 0.018*z/(0.107 + z)
            return 0.22 + 1.57*z - 1.8*z*z
        return 0.220 + 1.52*z - 5*z**3 - 0.072*z**2/(z + 0.18)**2

    def shape(self, z):
        z = self.clamp(z)
        if not isinstance(self.spec, str):
            return float(self._custom[1](z))
        if self.spec == "Spline":
            return float(_SPL_SHAPE(z))
        if self.spec == "White":
            w = 0.25 - z
            return 2 + 4.14*w - 83.5*w**2 + 854*w**3 - 3337*w**4 + 4576*w**5
        if self.spec == "Cebeci-Bradshaw":
            if z < 0:
                return 2.088 + 0.0731/(0.14 + z)
            return 2.61 - 3.75*z + 5.24*z*z
        return 2.61 - 4.1*z + 14*z**3 + 0.56*z**2/(z + 0.18)**2

    def shape_p(self, z):
        z = self.clamp(z)
        if not isinstance(self.spec, str):
            return float(self._custom[2](z))
        if self.spec == "Spline":
            return float(_SPL_SHAPE_P(z))
        if self.spec == "White":
            w = 0.25 - z
            return -(4.14 - 167*w + 2562*w**2 - 13348*w**3 + 22880*w**4)
        if self.spec == "Cebeci-Bradshaw":
            if z < 0:
                return -0.0731/(0.14 + z)**2
            return -3.75 + 10.48*z
        return -4.1 + 42*z**2 + 0.2016*z/(z + 0.18)**3

    def separation(self, z):
        """Negative once separated."""
        s = self.shear(z)
        if s <= 0 and z < self.lo:
            return s + (z - self.lo)
        return s

    def f(self, z):
        return 2*(self.shear(z) - z*(self.shape(z) + 2))


def _c_f(re, h):
    return 0.246/(re**0.268*10**min(0.678*h, 300.0))


def _h1(h):
    h = max(h, 1.1001)
    if h <= 1.6:
        return 3.3 + 0.8234/(h - 1.1)**1.287
    return 3.32254659218600974 + 1.5501/(h - 0.6778)**3.064


def _h1p(h):
    h = max(h, 1.1001)
    if h <= 1.6:
        return -0.8234*1.287/(h - 1.1)**2.287
    return -1.5501*3.064/(h - 0.6778)**4.064


class Reference:
    """Reference solution for a configuration, range and events.

    cfg: dictionary with cls, nu, vel, dm, and fit or sd and crit.
    """

    def __init__(self, cfg, x0, x1, events=(), n_grid=400):
        self.cfg = cfg
        self.cls = cfg["cls"]
        self.nu = cfg["nu"]
        self.u, self.du, self.d2u = flows.ref_velocity(cfg["vel"])
        self.x0, self.x1 = x0, x1
        self.fit = Fit(cfg["fit"]) if self.cls in ("TL", "TN") else None
        with np.errstate(all="ignore"):
            self._solve(list(events), n_grid)

    # ---- equations
    def rhs(self, x, y):
        """Right-hand side; not a number where it is not defined."""
        self.n_rhs = getattr(self, "n_rhs", 0) + 1
        if self.n_rhs > 40000:
            return [math.nan]*len(y)
        try:
            out = self._rhs(x, y)
            if any(isinstance(v, complex) for v in out):
                return [math.nan]*len(out)
            return out
        except (OverflowError, ZeroDivisionError):
            return [math.nan]*len(y)

    def _rhs(self, x, y):
        if self.fit is not None:
            lam = float(y[0]*self.du(x))
            if self.cls == "TL":
                f = 0.45 - 6*lam
            else:
                f = self.fit.f(lam)
            return [f/(1e-3 + float(self.u(x)))]
        dm, h = float(y[0]), max(float(y[1]), 1.11)
        u = float(self.u(x))
        if abs(u) < 0.001:
            u = 0.001
        du = float(self.du(x))
        cf = _c_f(u*dm/self.nu, h)
        h1 = _h1(h)
        dmp = 0.5*cf - dm*(2 + h)*du/u
        ent = 0.0306/(max(h1, 3.001) - 3)**0.6169
        hp = (u*ent - u*dmp*h1 - du*dm*h1)/(_h1p(h)*u*dm)
        return [dmp, hp]

    def built_in(self, x, y):
        try:
            return self._built_in(x, y)
        except (OverflowError, ZeroDivisionError):
            return math.nan

    def _built_in(self, x, y):
        if self.fit is not None:
            return self.fit.separation(float(y[0]*self.du(x)))
        return self.cfg["crit"] - float(y[1])

    def y0(self):
        if self.fit is not None:
            return [self.cfg["dm"]**2/self.nu]
        return [self.cfg["dm"], self.cfg["sd"]]

    def _solve(self, events, n_grid):
        span = abs(self.x1 - self.x0)
        y0 = self.y0()
        scale = np.maximum(np.abs(np.asarray(y0, dtype=float)), 1e-300)
        if self.fit is not None:
            atol = [max(1e-13*float(scale[0]), 1e-16)]
        else:
            atol = [1e-12*float(scale[0]), 1e-12]
        sol = solve_ivp(self.rhs, [self.x0, self.x1], y0, method="DOP853",
                        dense_output=True, rtol=1e-10, atol=atol,
                        max_step=span/40)
        self.ok = bool(sol.success)
        self.sol = sol.sol
        self.x_reached = float(sol.t[-1])
        # march over a fine grid and look for changes of sign
        xs = np.linspace(self.x0, self.x_reached, n_grid + 1)
        sgn = 1 if self.x1 >= self.x0 else -1
        self.hits = []           # (distance, which, x) of all crossings
        self.margin = {}         # which -> smallest |value|/scale at end/start
        conds = [("sep", self.built_in, 0)]
        for i, e in enumerate(events):
            conds.append((i, lambda x, y, e=e: flows.event_value(e, x, y),
                          e.get("dir", 0)))
        if len(sol.t) < 2:       # did not get anywhere
            self.sol = lambda x: np.array(y0, dtype=float)
            ys = np.array([y0]*len(xs), dtype=float).T
        else:
            ys = self.sol(xs)
        self.ys = ys
        for which, fun, direction in conds:
            vals = np.array([fun(float(x), ys[:, k])
                             for k, x in enumerate(xs)], dtype=float)
            span_v = np.nanmax(np.abs(vals)) if np.any(
                np.isfinite(vals)) else np.nan
            self.margin[which] = (vals[0], vals[-1], span_v)
            for k in range(len(xs) - 1):
                a, b = vals[k], vals[k + 1]
                if not (np.isfinite(a) and np.isfinite(b)):
                    continue
                up = a <= 0 <= b and b > a
                down = a >= 0 >= b and b < a
                if direction > 0:
                    act = up
                elif direction < 0:
                    act = down
                else:
                    act = up or down
                if not act or (a == 0 and k > 0):
                    continue
                lo, hi = float(xs[k]), float(xs[k + 1])
                fa = a
                for _ in range(60):
                    mid = 0.5*(lo + hi)
                    fm = fun(mid, self.sol(mid))
                    if (fm > 0) == (fa > 0) and fa != 0:
                        lo = mid
                    else:
                        hi = mid
                xr = 0.5*(lo + hi)
                self.hits.append((sgn*(xr - self.x0), which, xr))
        self.hits.sort(key=lambda t: (t[0], str(t[1])))

    # ---- properties
    def props(self, x, rho=1.0):
        """Return dictionary of properties at a location."""
        try:
            return self._props(x, rho)
        except (OverflowError, ZeroDivisionError, TypeError):
            return {"_lam": math.inf}

    def _props(self, x, rho):
        with np.errstate(all="ignore"):
            y = self.sol(x)
            u, du, d2u = (float(f(x)) for f in (self.u, self.du, self.d2u))
            out = {"u_e": u, "du_e": du, "delta_k": 0.0, "shape_k": 0.0,
                   "dissipation": 0.0}
            if self.fit is not None:
                d2n = float(y[0])
                lam = d2n*du
                dm = math.sqrt(d2n*self.nu) if d2n >= 0 else math.nan
                h = self.fit.shape(lam)
                out["delta_m"] = dm
                out["shape_d"] = h
                out["delta_d"] = dm*h
                out["tau_w"] = rho*self.nu*u*self.fit.shear(lam)/dm
                dp = self.rhs(x, y)[0]
                hp = self.fit.shape_p(lam)*(dp*du + d2n*d2u)
                # v_e = d(u_e*delta_d)/dx
                dmp = 0.5*math.sqrt(self.nu/d2n)*dp if d2n > 0 else math.nan
                out["v_e"] = du*dm*h + u*(dmp*h + dm*hp)
                out["_v_scale"] = abs(du*dm*h) + abs(u*dmp*h) + abs(u*dm*hp)
                out["_lam"] = lam
            else:
                dm, h = float(y[0]), float(y[1])
                out["delta_m"] = dm
                out["shape_d"] = h
                out["delta_d"] = dm*h
                uu = 0.001 if abs(u) < 0.001 else u
                out["tau_w"] = 0.5*rho*uu*uu*_c_f(uu*dm/self.nu, h)
                dmp, hp = self.rhs(x, y)
                out["v_e"] = du*h*dm + u*hp*dm + u*h*dmp
                out["_v_scale"] = (abs(du*dm*h) + abs(u*hp*dm)
                                   + abs(u*h*dmp))
            return out
