"""Simulated environment of the solvers: the user-supplied objects.

Velocities, data fits, termination events and initial conditions are described
by JSON data.  The callables built from them report every call to an Env,
which decides whether a fault happens there, and keep account of who owns the
arrays they return.
"""
import functools
import math

import numpy as np

EXC = {"ValueError": ValueError, "TypeError": TypeError,
       "ZeroDivisionError": ZeroDivisionError, "StopIteration": StopIteration,
       "KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError,
       "RuntimeError": RuntimeError, "OSError": OSError,
       "FloatingPointError": FloatingPointError, "IndexError": IndexError,
       "AttributeError": AttributeError, "GeneratorExit": GeneratorExit,
       "AssertionError": AssertionError, "ArithmeticError": ArithmeticError}


class Env:
    """Registry of user callbacks of one world and the faults armed in it."""

    def __init__(self, world):
        self.world = world
        self.armed = []
        self.fired = []          # (index, site, kind) in order of firing
        self.calls = 0
        self.kept = []           # (description, array, pristine bytes)
        self.owned_args = []
        self.hook = None         # called at each callback (thread switches)
        self.quiet = False       # the harness itself calls user functions

    def arm(self, faults):
        """Set the faults in force: list of dictionaries.

        site: name of callback (or prefix ending in *); call: fires at that
        call of it; x/dir: fires at calls at or past x; do: exception name,
        "nan" or "inf"; times: how often (default 1, -1 without limit).
        """
        self.armed = [dict(f, seen=0, done=0) for f in faults]
        self.fired = []

    def hit(self, site, x):
        """Return None, "nan" or "inf", or raise an injected exception."""
        if self.quiet:
            return None
        if self.hook is not None:
            self.hook(site)
        self.calls += 1
        for i, f in enumerate(self.armed):
            want = f["site"]
            if want != site and not (want.endswith("*")
                                     and site.startswith(want[:-1])):
                continue
            f["seen"] += 1
            times = f.get("times", 1)
            if 0 <= times <= f["done"]:
                continue
            if "call" in f:
                if f["seen"] < f["call"]:
                    continue
            if "x" in f:
                xs = np.asarray(x, dtype=float)
                if not np.all((xs - f["x"])*f.get("dir", 1) >= 0):
                    continue
            f["done"] += 1
            self.fired.append((i, site, f["do"]))
            if f["done"] == 1:
                self.world.fault(f"callback {site.split('.')[-1]} {f['do']}"
                                 + (" sustained" if times < 0 else ""))
            if f["do"] in ("nan", "inf"):
                return f["do"]
            raise EXC[f["do"]](f"injected {i} in {site}")
        return None

    def spoil(self, do, value):
        """Return value with the fault applied."""
        if do is None:
            return value
        bad = np.nan if do == "nan" else np.inf
        if isinstance(value, np.ndarray):
            return np.full_like(value, bad, dtype=float)
        return float(bad)

    def keep(self, what, arr):
        """Remember an array which nobody but its owner may change."""
        self.kept.append((what, arr, arr.tobytes()))

    def release(self, arr):
        """Forget an array: its owner is about to change it."""
        self.kept = [k for k in self.kept if k[1] is not arr]

    def changed_arrays(self):
        """Return descriptions of kept arrays that were changed."""
        return [w for w, a, b in self.kept if a.tobytes() != b]


# --------------------------------------------------------------------------
# edge velocities
# --------------------------------------------------------------------------
def vel_math(spec):
    """Return three plain functions: u_e and its two derivatives."""
    form = spec["form"]
    if form == "mix":
        return vel_math(spec["u"])[:1] + vel_math(spec["d"])[1:]
    a = spec.get("a", 0.0)
    b = spec.get("b", 0.0)
    c = spec.get("c", 0.0)
    d = spec.get("d", 0.0)
    if form == "const":
        return (lambda x: a + 0*x, lambda x: 0.0*x, lambda x: 0.0*x)
    if form == "lin":
        return (lambda x: a + b*x, lambda x: b + 0.0*x, lambda x: 0.0*x)
    if form == "quad":
        return (lambda x: a + x*(b + c*x), lambda x: b + 2*c*x,
                lambda x: 2*c + 0.0*x)
    if form == "pow":
        return (lambda x: a*(x + d)**b, lambda x: a*b*(x + d)**(b - 1),
                lambda x: a*b*(b - 1)*(x + d)**(b - 2))
    if form == "sin":
        return (lambda x: a + b*np.sin(c*x + d),
                lambda x: b*c*np.cos(c*x + d),
                lambda x: -b*c*c*np.sin(c*x + d))
    if form == "exp":
        return (lambda x: a*np.exp(b*x), lambda x: a*b*np.exp(b*x),
                lambda x: a*b*b*np.exp(b*x))
    if form == "ident":
        return (lambda x: x, lambda x: 1.0 + 0*x, lambda x: 0.0*x)
    raise KeyError(form)


class _Fun:
    """One user function of location."""

    def __init__(self, env, site, fun, own="fresh", dfun=(), rec=None):
        self._env = env
        self._site = site
        self._fun = fun
        self._own = own
        self._dfun = dfun
        self._memo = {}
        self._rec = rec

    def call(self, x):
        """Evaluate as the user's function."""
        do = self._env.hit(self._site, x)
        if self._own == "alias":
            val = self._fun(x)       # may be x itself
        elif self._own == "kept":
            xa = np.asarray(x, dtype=float)
            key = (xa.shape, xa.tobytes())
            val = self._memo.get(key)
            if val is None:
                val = np.asarray(self._fun(xa), dtype=float)
                if val.ndim == 0:
                    val = np.array(float(val))
                if len(self._memo) > 64:
                    self._memo.clear()
                self._memo[key] = val
                if len(self._env.kept) < 4000:
                    self._env.keep(f"value kept by {self._site}", val)
        elif self._own == "int" and np.ndim(x) == 0:
            val = self._fun(x)
            if float(val) == int(val):
                val = int(val)
        elif self._own == "np0":
            val = np.asarray(self._fun(np.asarray(x, dtype=float)))
        else:
            val = self._fun(x)
        return self._env.spoil(do, val)


def _plain(obj):
    def fun(x):
        return obj.call(x)
    return fun


class _Obj:
    """Function object with a derivative method, like a spline's."""

    def __init__(self, env, site, obj, subs, name="derivative"):
        self._env = env
        self._site = site
        self._obj = obj
        self._subs = subs

    def __call__(self, x):
        return self._obj.call(x)

    def derivative(self, n=1):
        """Return derivative function."""
        self._env.hit(self._site.rsplit(".", 1)[0] + ".derivative", 0.0)
        return self._subs[n - 1]


def grid(spec):
    """Return locations used to tabulate a velocity."""
    lo, hi, n = spec["grid"]
    return np.linspace(lo, hi, n)


def make_velocity(spec, env, owner):
    """Return the (u_e, du_e, d2u_e) arguments described by spec."""
    if spec["form"] == "mix":
        return (make_velocity(spec["u"], env, owner)[:1]
                + make_velocity(spec["d"], env, owner)[1:])
    u, du, d2u = vel_math(spec)
    own = spec.get("own", "fresh")
    give = spec.get("give", "udd")
    f = [_Fun(env, f"{owner}.{s}", g, own)
         for s, g in (("u", u), ("du", du), ("d2u", d2u))]
    if give == "u":
        return _plain(f[0]), None, None
    if give == "ud":
        return _plain(f[0]), _plain(f[1]), None
    if give == "udd":
        return _plain(f[0]), _plain(f[1]), _plain(f[2])
    if give == "uobj":
        return (_Obj(env, f"{owner}.u", f[0], (_plain(f[1]), _plain(f[2]))),
                None, None)
    if give == "udobj":
        return (_plain(f[0]),
                _Obj(env, f"{owner}.du", f[1], (_plain(f[2]),)), None)
    if give == "pts":
        xs = grid(spec)
        us = np.array(u(xs), dtype=float)
        if spec.get("lists"):
            return ([float(v) for v in xs], [float(v) for v in us]), None, None
        env.keep(f"velocity points x of {owner}", xs)
        env.keep(f"velocity points u of {owner}", us)
        return (xs, us), None, None
    if give == "dpts":
        xs = grid(spec)
        dus = np.array(du(xs), dtype=float)
        env.keep(f"velocity rate points x of {owner}", xs)
        env.keep(f"velocity rate points du of {owner}", dus)
        return float(u(xs[0])), (xs, dus), None
    if give == "spline":
        from scipy.interpolate import CubicSpline
        xs = grid(spec)
        return CubicSpline(xs, u(xs)), None, None
    raise KeyError(give)


def velocity_again(spec, env, owner, last, given):
    """Return arguments for spec which reuse objects given before.

    last, given: specification and arguments of the velocity given last.
    """
    if given is None:
        return make_velocity(spec, env, owner)
    bare = lambda s: {k: v for k, v in s.items() if k != "reuse"}
    if spec["form"] == "mix" and upart(last) == bare(spec["u"]):
        return given[:1] + make_velocity(spec["d"], env, owner)[1:]
    if spec["form"] == "mix" and dpart(last) == bare(spec["d"]):
        return make_velocity(spec["u"], env, owner)[:1] + given[1:]
    if not spec.get("reuse"):
        return make_velocity(spec, env, owner)
    kind = spec.get("give")
    if kind == last.get("give") and kind in ("pts", "dpts"):
        new = make_velocity(dict(spec, lists=False), env, owner)
        which = 0 if kind == "pts" else 1
        if len(given[which][0]) == len(new[which][0]):
            for arr, b in zip(given[which], new[which]):
                rewrite(env, arr, b)
            return tuple(given[i] if i == which else new[i]
                         for i in range(3))
    elif bare(spec) == bare(last):
        return given
    return make_velocity(spec, env, owner)


def rewrite(env, arr, values):
    """Change array (or list) of the user as its owner."""
    if not isinstance(arr, np.ndarray):
        arr[:] = [float(v) for v in values]
        return
    what = [w for w, a, _b in env.kept if a is arr]
    env.release(arr)
    arr[...] = values
    env.keep(what[0] if what else "array of the user", arr)


def upart(spec):
    """Return specification of the velocity itself of a velocity."""
    spec = spec["u"] if spec["form"] == "mix" else spec
    return {k: v for k, v in spec.items() if k != "reuse"}


def dpart(spec):
    """Return specification of the derivatives of a velocity."""
    spec = spec["d"] if spec["form"] == "mix" else spec
    return {k: v for k, v in spec.items() if k != "reuse"}


def gen_again(rng, last, x0, x1, turb):
    """Draw a velocity which reuses objects of the last one, or None."""
    if rng.random() < 0.2:
        return dict(last, reuse=True)
    if last.get("give") == "pts":
        new = gen_velocity(rng, x0, x1, turb=turb, gives=["pts"])
        new.pop("lists", None)
        if last.get("lists"):
            new["lists"] = True
        new["grid"][2] = last["grid"][2]
        return dict(new, reuse=True)
    if last.get("give") in ("ud", "udd", "udobj") and rng.random() < 0.4:
        # another velocity with the same functions for its derivatives
        u = gen_velocity(rng, x0, x1, turb=turb, gives=["udd"])
        d = dpart(last)
        if rng.random() < 0.5 and "a" in d and d["form"] in (
                "const", "lin", "quad", "sin"):
            u = dict(d, a=round(d["a"] + rng.uniform(0.05, 0.5), 4),
                     give="udd")
        return {"form": "mix", "u": u, "d": d, "give": last["give"],
                "own": d["own"]}
    if last.get("give") in ("u", "ud", "udd", "uobj", "udobj"):
        d = gen_velocity(rng, x0, x1, turb=turb, gives=["udd", "udd", "ud"])
        return {"form": "mix", "u": upart(last), "d": d, "give": d["give"],
                "own": d["own"]}
    return None


def ref_velocity(spec):
    """Return the three functions that a solver shall use for spec."""
    if spec["form"] == "mix":
        return (ref_velocity(spec["u"])[0],) + ref_velocity(spec["d"])[1:]
    give = spec.get("give", "udd")
    u, du, d2u = vel_math(spec)
    if give in ("pts", "dpts", "spline"):
        from scipy.interpolate import CubicSpline, PchipInterpolator
        xs = grid(spec)
        if give == "spline":
            p = CubicSpline(xs, u(xs))
            return p, p.derivative(), p.derivative(2)
        if give == "pts":
            p = PchipInterpolator(xs, u(xs))
            return p, p.derivative(), p.derivative(2)
        p = PchipInterpolator(xs, du(xs))
        q = p.antiderivative()
        u0 = float(u(xs[0]))
        return (lambda x: q(x) + u0), p, p.derivative()
    return u, du, d2u


def gen_velocity(rng, x0, x1, turb=False, kinds=None, gives=None, owns=None):
    """Draw a velocity which stays positive on the range."""
    lo, hi = min(x0, x1), max(x0, x1)
    span = hi - lo
    form = rng.choice(kinds or ["const", "lin", "lin", "quad", "pow", "sin",
                                "exp", "ident"])
    spec = {"form": form}
    r = lambda a, b: round(rng.uniform(a, b), 4)
    if form == "const":
        spec["a"] = rng.choice([1.0, 2.0, 3.0, r(0.5, 30)])
    elif form == "lin":
        top = r(0.8, 20)
        # end value relative to start value
        ratio = r(0.55, 1.9) if not turb else r(0.75, 1.5)
        b = top*(ratio - 1)/span
        spec["a"] = round(top - b*lo, 6)
        spec["b"] = round(b, 6)
    elif form == "quad":
        top = r(0.8, 20)
        b = top*r(-0.35, 0.6)/span
        c = top*r(-0.2, 0.4)/span**2
        spec["a"] = round(top - b*lo - c*lo*lo, 6)
        spec["b"] = round(b, 6)
        spec["c"] = round(c, 6)
    elif form == "pow":
        spec["a"] = r(0.8, 20)
        spec["b"] = rng.choice([r(-0.12, 0.0), r(0.05, 1.2), 1.0, 0.5,
                                0.3333])
        spec["d"] = rng.choice([0.0, r(0.0, 0.5)])
        if lo + spec["d"] < 0.02:
            spec["d"] = 0.1
    elif form == "sin":
        spec["a"] = r(1.0, 15)
        spec["b"] = round(spec["a"]*r(0.02, 0.3), 6)
        spec["c"] = round(rng.uniform(0.5, 4.0)/span, 5)
        spec["d"] = r(0, 6.28)
    elif form == "exp":
        spec["a"] = r(0.8, 10)
        spec["b"] = round(rng.uniform(-0.4, 0.8)/span, 5)
    elif form == "ident":
        if lo < 0.02:
            spec = {"form": "lin", "a": 0.5, "b": 1.0}
    spec["give"] = rng.choice(gives or ["u", "ud", "udd", "udd", "udd",
                                        "uobj", "udobj", "pts", "dpts",
                                        "spline"])
    if spec["give"] in ("pts", "dpts", "spline"):
        spec["grid"] = [round(lo - 0.05*span, 6), round(hi + 0.05*span, 6),
                        rng.choice([9, 17, 33, 65])]
        if lo - 0.05*span <= 0 and form in ("pow", "ident"):
            spec["grid"][0] = round(lo*0.5, 6)
        if spec["give"] == "pts" and rng.random() < 0.3:
            spec["lists"] = True
    else:
        own = rng.choice(owns or ["fresh", "fresh", "kept", "alias", "np0",
                                  "int"])
        if own == "int" and form not in ("const", "ident"):
            own = "fresh"
        spec["own"] = own
    return spec


# --------------------------------------------------------------------------
# data fits
# --------------------------------------------------------------------------
FITS = ["Spline", "White", "Cebeci-Bradshaw", "Drela"]


def fit_math(spec):
    """Return shear, shape, shape_p of a custom fit."""
    s = spec["s"]
    h = spec["h"]
    return (lambda z: s[0] + z*(s[1] + z*s[2]),
            lambda z: h[0] + z*(h[1] + z*h[2]),
            lambda z: h[1] + 2*z*h[2])


def make_fit(spec, env, owner, memo=None):
    """Return the data_fits argument described by spec.

    memo: functions given before, some of which are given again.
    """
    if isinstance(spec, str):
        return spec
    shear, shape, shape_p = fit_math(spec)
    own = spec.get("own", "fresh")
    f = []
    for s, g, c in (("shear", shear, "s"), ("shape", shape, "h"),
                    ("shape_p", shape_p, "h")):
        key = (s, own, tuple(spec[c]))
        fun = memo.get(key) if memo is not None and spec.get("reuse") \
            else None
        if fun is None:
            fun = _plain(_Fun(env, f"{owner}.{s}", g, own))
            if memo is not None:
                memo[key] = fun
        f.append(fun)
    return tuple(f[:spec["n"]])


def gen_fit_again(rng, last):
    """Draw a data fit which shares functions with the last one."""
    new = gen_fit(rng)
    while isinstance(new, str):
        new = gen_fit(rng)
    new["own"] = last["own"]
    part = rng.choice(["s", "h", "both"])
    if part in ("s", "both"):
        new["s"] = list(last["s"])
    if part in ("h", "both"):
        new["h"] = list(last["h"])
    new["reuse"] = True
    return new


def gen_fit(rng, custom=True):
    """Draw a data fit."""
    if not custom or rng.random() < 0.6:
        return rng.choice(FITS)
    return {"n": rng.choice([2, 3]),
            "s": [round(rng.uniform(0.2, 0.24), 4),
                  round(rng.uniform(1.4, 1.8), 4),
                  round(rng.uniform(-3, -1), 4)],
            "h": [round(rng.uniform(2.5, 2.7), 4),
                  round(rng.uniform(-5, -3.5), 4),
                  round(rng.uniform(5, 14), 4)],
            "own": rng.choice(["fresh", "kept", "np0"])}


# --------------------------------------------------------------------------
# events
# --------------------------------------------------------------------------
def event_value(spec, x, f):
    """Value of the event function at a location and state."""
    if spec["on"] == "x":
        v = x - spec["at"]
    else:
        v = f[spec["i"]] - spec["at"]
    return v*spec.get("gain", 1.0)


@functools.lru_cache(None)
def event_classes():
    """Return the classes of user events, which all events share."""
    from ibl.ibl_method import TermEvent, TermReason

    class Event(TermEvent):
        """Event of the simulated user."""

        def __init__(self, spec, env, owner):
            super().__init__()
            self.what = spec
            self.env = env
            self.owner = owner

        def _call_impl(self, x, f):
            do = self.env.hit(self.owner, x)
            v = event_value(self.what, x, f)
            ret = self.what.get("ret", "as is")
            if ret == "array":
                v = np.atleast_1d(v)
            elif ret == "float":
                v = float(v)
            return self.env.spoil(do, v)

        def event_info(self):
            self.env.hit(self.owner + "_info", 0.0)
            return TermReason[self.what["reason"]], self.what["msg"]

    class Other(Event):
        """Another kind of event."""

    return Event, Other


def make_event(spec, env, owner):
    """Return a TermEvent described by spec."""
    ev = event_classes()[1 if spec.get("kind") else 0](spec, env, owner)
    if "terminal" in spec:
        ev.terminal = spec["terminal"]
    if spec.get("dir", 0) != 0:
        ev.direction = spec["dir"]
    return ev


# --------------------------------------------------------------------------
# initial conditions
# --------------------------------------------------------------------------
def make_ic(spec, env, owner):
    """Return an InitialCondition described by spec."""
    from ibl import initial_condition as ic

    kind = spec["kind"]
    if kind == "manual":
        return ic.ManualCondition(delta_d=spec["dd"], delta_m=spec["dm"],
                                  delta_k=spec.get("dk", 0.0))
    if kind == "stag":
        return ic.FalknerSkanStagCondition(spec.get("du_e", 1.0),
                                           spec.get("nu", 1e-5))
    if kind == "user":
        class UserCondition(ic.InitialCondition):
            """Initial condition of the simulated user."""

            def __init__(self):
                super().__init__(0.0, 1.0)

            def delta_m(self):
                do = env.hit(owner + ".ic_dm", 0.0)
                return env.spoil(do, spec["dm"]*math.sqrt(self.nu)
                                 + 1e-7*self.du_e)

            def delta_d(self):
                do = env.hit(owner + ".ic_dd", 0.0)
                return env.spoil(do, spec["dd"]*math.sqrt(self.nu))

            def delta_k(self):
                return 0.0

            def shape_d(self):
                do = env.hit(owner + ".ic_sd", 0.0)
                return env.spoil(do, spec["sd"])

            def shape_k(self):
                return 0.0

        return UserCondition()
    raise KeyError(kind)
