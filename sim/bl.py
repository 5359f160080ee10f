"""Operations on the boundary layer solvers, as seen by their user."""
import json

import numpy as np

from sim import flows
from sim.core import SimHang, Violation

CLS = {"TL": ("ibl.thwaites_method", "ThwaitesMethodLinear"),
       "TN": ("ibl.thwaites_method", "ThwaitesMethodNonlinear"),
       "H": ("ibl.head_method", "HeadMethod")}

PROPS = ["u_e", "du_e", "d2u_e", "v_e", "delta_d", "delta_m", "delta_k",
         "shape_d", "shape_k", "tau_w", "dissipation"]
SOL_PROPS = ["v_e", "delta_d", "delta_m", "shape_d", "shape_k", "tau_w"]
RHO = 1.25
BUDGET = 6_000_000


def klass(code):
    """Return class of solver."""
    import importlib
    mod, name = CLS[code]
    return getattr(importlib.import_module(mod), name)


def guard(world, fn, *args, budget=BUDGET, **kw):
    """Call fn; return ("ok", value) or ("exc", type, text, chain)."""
    if budget is not None:
        world.ticks.budget(budget)
    try:
        val = fn(*args, **kw)
        res = ("ok", val)
    except (SimHang, Violation):
        raise
    except BaseException as exc:  # pylint: disable=broad-except
        res = ("exc", type(exc).__name__, str(exc)[:300], chain(exc))
        exc.__traceback__ = None
        del exc
    left = world.ticks._left
    if left is not None and left < 0:
        raise SimHang("work budget used up and exception replaced")
    if budget is not None:
        world.ticks.budget(None)
    return res


def chain(exc):
    """Return [(type name, text)] of exception and all it came from.

    What is hidden from the user ("from None") does not count.
    """
    out = []
    seen = set()
    todo = [exc]
    while todo:
        e = todo.pop()
        if e is None or id(e) in seen:
            continue
        seen.add(id(e))
        out.append((type(e).__name__, str(e)[:200]))
        todo.append(e.__cause__)
        if not e.__suppress_context__:
            todo.append(e.__context__)
        todo += list(getattr(e, "exceptions", []) or [])
    return out


def plain(val):
    """Turn a value into comparable data."""
    if val is None:
        return None
    try:
        arr = np.asarray(val, dtype=float)
    except (TypeError, ValueError):
        return ("repr", repr(val)[:200])
    return (list(arr.shape), [float(v) for v in arr.ravel()])


def plain_result(res):
    """Turn an IntegrationResult into comparable data."""
    return {"x_end": plain(res.x_end), "f_end": plain(res.f_end),
            "status": str(res.status), "code": int(res.status),
            "message": str(res.message), "success": bool(res.success)}


def close(a, b, rtol=1e-9, atol=0.0):
    """Compare two results of plain(), plain_result() or observe()."""
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(close(a[k], b[k], rtol, atol)
                                        for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close(x, y, rtol, atol)
                                        for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a == b or (a != a and b != b):
            return True
        return abs(a - b) <= atol + rtol*max(abs(a), abs(b))
    return a == b


def differ(a, b, rtol=1e-9, atol=0.0, path=""):
    """Describe first difference of two results, or return None."""
    if close(a, b, rtol, atol):
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return f"{path}.{k} only in one"
            d = differ(a[k], b[k], rtol, atol, f"{path}.{k}")
            if d:
                return d
    if (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))
            and len(a) == len(b)):
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, rtol, atol, f"{path}[{i}]")
            if d:
                return d
    return f"{path}: {str(a)[:300]} != {str(b)[:300]}"


class Slot:
    """A solver of the simulated user."""

    def __init__(self, world, env, name):
        self.world = world
        self.env = env
        self.name = name
        self.obj = None
        self.cfg = None
        self.given = None        # velocity given last: (spec, arguments)
        self.funs = {}           # data fit functions given before
        self.events = {}         # events given before

    # ---- construction
    def create(self, cfg, in_ctor=("nu", "vel", "fit", "crit"), order=None,
               budget=BUDGET):
        """Make a solver with the settings of cfg."""
        kw = {}
        if "nu" in in_ctor:
            kw["nu"] = cfg["nu"]
        if "vel" in in_ctor and cfg.get("vel"):
            u, du, d2u = flows.make_velocity(cfg["vel"], self.env, self.name)
            self.given = (cfg["vel"], (u, du, d2u))
            kw["U_e"], kw["dU_edx"], kw["d2U_edx2"] = u, du, d2u
        if "fit" in in_ctor and cfg.get("fit") is not None:
            kw["data_fits"] = flows.make_fit(cfg["fit"], self.env, self.name,
                                            self.funs)
        if "crit" in in_ctor and cfg.get("crit") is not None:
            kw["shape_d_crit"] = cfg["crit"]
        res = guard(self.world, klass(cfg["cls"]), budget=budget, **kw)
        if res[0] == "exc":
            return res
        self.obj = res[1]
        self.cfg = cfg
        todo = order or ["nu", "vel", "fit", "crit", "ic", "dm", "sd"]
        for key in todo:
            if key in in_ctor or cfg.get(key) is None:
                continue
            res = self.set(key, cfg[key], budget=budget)
            if res[0] == "exc":
                return res
        return ("ok", None)

    # ---- settings
    def set(self, key, val, budget=BUDGET):
        """Apply one setting."""
        o = self.obj

        def act():
            if key == "nu":
                o.nu = val
            elif key == "vel":
                last, old = self.given or (None, None)
                args = flows.velocity_again(val, self.env, self.name, last,
                                            old)
                self.given = (val, args)
                o.set_velocity(*args)
            elif key == "fit":
                o.set_data_fits(flows.make_fit(val, self.env, self.name,
                                               self.funs))
            elif key == "crit":
                o.set_shape_d_critical(val)
            elif key == "dm":
                o.initial_delta_m = val
            elif key == "sd":
                o.initial_shape_d = val
            elif key == "ic":
                o.set_initial_condition(flows.make_ic(val, self.env,
                                                      self.name))
            else:
                raise KeyError(key)
        return guard(self.world, act, budget=budget)

    def settings(self):
        """Return what the solver reports of its settings."""
        out = {"nu": guard(self.world, lambda: plain(self.obj.nu))[:2]}
        out["dm"] = guard(self.world,
                          lambda: plain(self.obj.initial_delta_m))[:2]
        if self.cfg["cls"] == "H":
            out["sd"] = guard(self.world,
                              lambda: plain(self.obj.initial_shape_d))[:2]
        return out

    def scribble(self):
        """The user reuses the arrays it gave for something else."""
        for arg in (self.given[1] if self.given else ()):
            if isinstance(arg, tuple):
                for arr in arg:
                    flows.rewrite(self.env, arr, [-5.5]*len(arr))

    # ---- solve and queries
    def solve(self, x0, x1, events=None, budget=BUDGET, mode="list",
              again=False):
        """Solve; return ("ok", plain result) or ("exc", ...)."""
        key = (json.dumps(events, sort_keys=True), mode)

        def act():
            evs = None
            if again and key in self.events:
                evs = self.events[key]
                self.world.probe("events used again")
            elif events is not None:
                evs = [flows.make_event(e, self.env,
                                        f"{self.name}.event{i}")
                       for i, e in enumerate(events)]
                if mode == "single" and len(evs) == 1:
                    evs = evs[0]
                self.events[key] = evs
            self.last_events = evs
            before = list(evs) if isinstance(evs, list) else None
            res = self.obj.solve(x0, x1, evs)
            if self.world.given is not None:
                self.world.given.append((f"{self.name}.result", res))
            if before is not None and evs != before:
                raise Violation("event list of the caller changed",
                                f"{len(before)} -> {len(evs)} entries")
            return plain_result(res)
        res = guard(self.world, act, budget=budget)
        self.world.log("solve", self.name, x0, x1, res)
        if res[0] == "ok":
            self.world.march += abs(res[1]["x_end"][1][0] - x0)
        return res

    def query(self, prop, x, budget=BUDGET, raw=False):
        """Query a property; x is a float or an array."""
        fn = getattr(self.obj, prop)
        args = (x, RHO) if prop in ("tau_w", "dissipation") else (x,)

        def act():
            val = fn(*args)
            return val if raw else plain(val)
        return guard(self.world, act, budget=budget)

    def observe(self, xs, props=PROPS):
        """Return the answers of all properties at locations."""
        out = {}
        xa = np.array(xs, dtype=float)
        for p in props:
            res = self.query(p, xa)
            out[p] = list(res[:2]) if res[0] == "exc" else list(res)
        return out

    def outcome(self, x0, x1, events=None, n=5, mode="list"):
        """Solve and observe; everything that is reported."""
        res = self.solve(x0, x1, events, mode=mode)
        out = {"solve": list(res[:2]) if res[0] == "ok" else list(res[:3])}
        if res[0] == "ok" and res[1]["success"]:
            xe = res[1]["x_end"][1][0]
            xs = [x0 + (xe - x0)*k/(n - 1) for k in range(n)]
            out["obs"] = self.observe(xs)
            out["xs"] = xs
        return out


def answers(obs):
    """True if any solution property was answered with a value."""
    return any(obs[p][0] == "ok" for p in SOL_PROPS if p in obs)


# --------------------------------------------------------------------------
# drawing configurations
# --------------------------------------------------------------------------
def rnd(rng, a, b, n=6):
    return round(rng.uniform(a, b), n)


def gen_range(rng):
    """Draw a marching range."""
    x0 = rnd(rng, 0.05, 1.0, 4)
    return x0, round(x0 + rng.uniform(0.2, 2.0), 4)


def gen_cfg(rng, x0, x1, cls=None, **kw):
    """Draw a complete configuration."""
    cls = cls or rng.choice(["TL", "TN", "H"])
    turb = cls == "H"
    nu = float(f"{10**rng.uniform(-6, -4):.4g}")
    cfg = {"cls": cls, "nu": nu,
           "vel": flows.gen_velocity(rng, x0, x1, turb=turb, **kw)}
    if cls == "H":
        cfg["dm"] = float(f"{10**rng.uniform(-3.3, -2.3):.4g}")
        cfg["sd"] = rnd(rng, 1.3, 1.8, 4)
        cfg["crit"] = rng.choice([2.4, 2.4, rnd(rng, 1.9, 2.6, 3)])
    else:
        # somewhere near the equilibrium thickness
        cfg["dm"] = float(f"{(nu*10**rng.uniform(-4, -1.5))**0.5:.4g}")
        cfg["fit"] = flows.gen_fit(rng)
    return cfg


def gen_events(rng, x0, x1, n=None, ref=None):
    """Draw user events, some of which are met."""
    out = []
    n = rng.choice([0, 1, 1, 2, 3]) if n is None else n
    for k in range(n):
        e = {"on": "x", "at": round(x0 + (x1 - x0)*rng.uniform(-0.2, 1.3), 5),
             "dir": rng.choice([0, 0, 1, -1]),
             "gain": rng.choice([1.0, -1.0, 2.5]),
             "reason": rng.choice(["TRANSITIONED", "UNKNOWN", "SEPARATED"]),
             "msg": f"event {k}: {rng.choice(['one', 'two', 'three'])}",
             "ret": rng.choice(["as is", "as is", "array", "float"])}
        if ref is not None and rng.random() < 0.45:
            i = rng.randrange(ref.ys.shape[0])
            vals = ref.ys[i]
            vals = vals[np.isfinite(vals)]
            if len(vals) > 10:
                v = float(vals[rng.randrange(len(vals))])
                e.update(on="f", i=i, at=float(f"{v:.7g}"))
                e["gain"] = float(f"{e['gain']/max(abs(v), 1e-12):.4g}")
        if e["on"] == "x" and rng.random() < 0.15:
            # very near to one of the ends
            f = 10**rng.uniform(-7.5, -1)
            e["at"] = x0 + (x1 - x0)*(f if rng.random() < 0.7 else 1 - f)
        if rng.random() < 0.25:
            e["terminal"] = False
        if rng.random() < 0.3:
            e["kind"] = 1
        if rng.random() < 0.25:
            # only the sign of the function means anything
            e["gain"] = float(f"{e['gain']*10**rng.uniform(-25, 25):.4g}")
        out.append(e)
    return out
