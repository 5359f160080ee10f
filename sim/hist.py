"""Histories of operations on several solvers, with a model of the settings."""
import copy

import numpy as np

from sim import bl, flows

BAD_VEL = ["noncallable du", "d2u without du", "noncallable d2u",
           "length mismatch", "one point", "two dim", "unsorted",
           "three tuple", "rates wrong length", "scalar alone", "text",
           "nan points", "rates unsorted", "empty"]
BAD_DERIV = ["derivative raises", "second derivative raises",
             "du derivative raises"]
EVIL_VEL = ["evil derivative attribute", "evil length", "evil points",
            "evil point values", "evil rates", "evil du attribute"]
EVIL_FIT = ["evil length", "evil name"]
BAD_FIT = ["unknown name", "number", "noncallable pair", "single",
           "noncallable triple", "noncallable pair second", "list"]


def bad_velocity(kind, env, owner, exc):
    """Return arguments of set_velocity which have to be refused."""
    u = lambda x: 7.0 + 0*x
    if kind == "noncallable du":
        return u, 3.0, None
    if kind == "d2u without du":
        return u, None, u
    if kind == "noncallable d2u":
        return u, u, 4.0
    if kind == "length mismatch":
        return ([0.0, 1.0, 2.0], [7.0, 7.0]), None, None
    if kind == "one point":
        return ([0.0], [7.0]), None, None
    if kind == "two dim":
        return (np.ones((2, 2)), np.ones((2, 2))), None, None
    if kind == "unsorted":
        return ([0.0, 2.0, 1.0], [7.0, 8.0, 9.0]), None, None
    if kind == "nan points":
        return ([0.0, 1.0, np.nan], [7.0, 8.0, 9.0]), None, None
    if kind == "three tuple":
        return ([0.0, 1.0], [7.0, 7.0], [0.0, 0.0]), None, None
    if kind == "rates wrong length":
        return 7.0, ([0.0, 1.0, 2.0], [1.0, 1.0]), None
    if kind == "rates unsorted":
        return 7.0, ([0.0, 2.0, 1.0], [1.0, 1.0, 1.0]), None
    if kind == "scalar alone":
        return 7.0, None, None
    if kind == "text":
        return "velocity", None, None
    if kind == "empty":
        return ([], []), None, None

    class Obj:
        """Function object whose derivative fails."""

        def __call__(self, x):
            return 7.0 + 0*x

        def derivative(self, n=1):
            if kind == "second derivative raises" and n == 1:
                return lambda x: 0.0*x
            env.world.fault(f"derivative raises {exc}")
            raise flows.EXC[exc](f"injected in {owner}")

    if kind in ("derivative raises", "second derivative raises"):
        return Obj(), None, None
    if kind == "du derivative raises":
        return u, Obj(), None
    raise KeyError(kind)


def bad_fit(kind):
    """Return argument of set_data_fits which has to be refused."""
    f = lambda z: 0.2 + 0*z
    return {"unknown name": "Thwaites", "number": 3,
            "noncallable pair": (1, 2), "single": (f,),
            "noncallable triple": (f, f, 1.0),
            "noncallable pair second": (f, "x"),
            "list": [f, f]}[kind]


BAD_NUM = {"zero": 0, "negative": -1.5e-5, "text": "abc", "none": None,
           "tiny negative": -1e-300}


class EvilNumber:
    """Number of the user whose comparisons and conversions raise."""

    def __init__(self, world, exc):
        self._do = (world, exc)

    def _hit(self, *_args):
        world, exc = self._do
        world.fault(f"argument raises {exc}")
        raise flows.EXC[exc]("injected in number")

    __le__ = __lt__ = __ge__ = __gt__ = __float__ = __eq__ = _hit
    __hash__ = None


class EvilSequence:
    """Sequence of the user which fails when it is looked at."""

    def __init__(self, world, exc, after, data=None):
        self._world, self._exc, self._after = world, exc, after
        self._data = data or [0.0, 1.0, 2.0]

    def _hit(self):
        if self._after > 0:
            self._after -= 1
            return
        self._world.fault(f"argument raises {self._exc}")
        raise flows.EXC[self._exc]("injected in sequence")

    def __len__(self):
        self._hit()
        return len(self._data)

    def __getitem__(self, i):
        self._hit()
        return self._data[i]

    def __array__(self, *args, **kw):
        self._hit()
        return np.array(self._data)


def evil_velocity(kind, env, owner, exc, after):
    """Return arguments of set_velocity which run failing user code."""
    world = env.world
    u = lambda x: 7.0 + 0*x

    class Attr:
        """Function object whose attribute cannot be read."""

        def __call__(self, x):
            return 7.0 + 0*x

        @property
        def derivative(self):
            """Fail."""
            world.fault(f"argument raises {exc}")
            raise flows.EXC[exc]("injected in attribute")

    seq = EvilSequence(world, exc, after)
    if kind == "evil derivative attribute":
        return Attr(), None, None
    if kind == "evil du attribute":
        return u, Attr(), None
    if kind == "evil length":
        return seq, None, None
    if kind == "evil points":
        return (seq, [7.0, 8.0, 9.0]), None, None
    if kind == "evil point values":
        return ([0.0, 1.0, 2.0], seq), None, None
    if kind == "evil rates":
        return 7.0, ([0.0, 1.0, 2.0], seq), None
    raise KeyError(kind)


class EvilTuple(tuple):
    """Tuple of the user whose length cannot be asked for."""

    def __len__(self):
        raise self.exc("injected in tuple")


class EvilName(str):
    """Text of the user which cannot be compared."""

    def __eq__(self, other):
        raise self.exc("injected in name")

    __hash__ = str.__hash__


class History:
    """Executes operations and tracks the settings that are in force."""

    def __init__(self, world, env=None):
        self.world = world
        self.env = env or flows.Env(world)
        self.slots = {}

    def do(self, op):
        """Execute one operation; return its outcome (or None: skipped)."""
        kind = op["op"]
        name = op.get("slot")
        if kind == "new":
            slot = bl.Slot(self.world, self.env, name)
            res = slot.create(copy.deepcopy(op["cfg"]),
                              in_ctor=op.get("ctor", ("nu", "vel", "fit",
                                                      "crit")),
                              order=op.get("order"))
            if slot.obj is not None:
                slot.solved = None
                self.slots[name] = slot
            self.world.log("new", name, res[:2])
            return res
        slot = self.slots.get(name)
        if slot is None:
            return None
        if kind == "set":
            res = slot.set(op["key"], op["val"])
            if res[0] == "ok":
                model_set(slot.cfg, op["key"], op["val"])
            self.world.log("set", name, op["key"], res[:2])
            return res
        if kind == "bad":
            res = self._bad(slot, op)
            self.world.log("bad", name, op["key"], op["val"], res[:2])
            return res
        if kind == "solve":
            self.env.arm(op.get("faults", []))
            res = slot.solve(op["x0"], op["x1"], op.get("events"),
                             mode=op.get("mode", "list"),
                             again=op.get("again", False))
            fired = list(self.env.fired)
            self.env.arm([])
            self.last_fired = fired
            if res[0] == "ok" and res[1]["success"]:
                slot.solved = (copy.deepcopy(slot.cfg), op["x0"],
                               res[1]["x_end"][1][0])
            return res
        if kind == "scribble":
            slot.scribble()
            return ("ok", None)
        if kind == "query":
            x = op["x"]
            if isinstance(x, list):
                x = np.array(x, dtype=float)
            res = slot.query(op["prop"], x)
            self.world.log("query", name, op["prop"], res[:2])
            return res
        if kind == "analytic":
            return self._analytic(op)
        raise KeyError(kind)

    def _analytic(self, op):
        def act():
            from ibl.analytic import FalknerSkan, Blasius
            if op["what"] == "blasius":
                o = Blasius(op["u"], op["nu"])
            else:
                o = FalknerSkan(op["beta"], op["u"], op["nu"],
                                fw_pp=op["fw"], eta_inf=op["eta"])
            return bl.plain(o.delta_d(0.5))
        return bl.guard(self.world, act)

    def _bad(self, slot, op):
        key, val, exc = op["key"], op["val"], op.get("exc", "ValueError")
        o = slot.obj

        def act():
            if op.get("evil"):
                self._evil(slot, op)
            elif key == "vel":
                o.set_velocity(*bad_velocity(val, self.env, slot.name, exc))
            elif key == "fit":
                o.set_data_fits(bad_fit(val))
            elif key == "nu":
                o.nu = BAD_NUM[val]
            elif key == "dm":
                o.initial_delta_m = BAD_NUM[val]
            elif key == "sd":
                o.initial_shape_d = BAD_NUM[val]
            elif key == "dm unsupported":
                o.initial_delta_m = 1e-3
            elif key == "sd unsupported":
                o.initial_shape_d = 1.5
            elif key == "solve":
                o.solve(*{"nan start": (np.nan, 1.0), "nan end": (0.1, np.nan),
                          "text": ("a", "b")}[val])
            elif key == "query":
                getattr(o, val)()
            else:
                raise KeyError(key)
        return bl.guard(self.world, act)

    def _evil(self, slot, op):
        key, val, exc = op["key"], op["val"], op["exc"]
        o = slot.obj
        if key == "vel":
            o.set_velocity(*evil_velocity(val, self.env, slot.name, exc,
                                          op.get("after", 0)))
        elif key == "fit":
            f = lambda z: 0.2 + 0*z
            bad = EvilTuple((f, f)) if val == "evil length" \
                else EvilName("White")
            bad.exc = flows.EXC[exc]
            o.set_data_fits(bad)
        elif key == "nu":
            o.nu = EvilNumber(self.world, exc)
        elif key == "dm":
            o.initial_delta_m = EvilNumber(self.world, exc)
        elif key == "sd":
            o.initial_shape_d = EvilNumber(self.world, exc)
        else:
            raise KeyError(key)


def gen_evil(rng, cfg):
    """Draw a setting which runs user code that fails."""
    keys = ["vel", "vel", "vel", "nu", "dm",
            "sd" if cfg["cls"] == "H" else "fit"]
    key = rng.choice(keys)
    op = {"op": "bad", "key": key, "evil": True, "val": "",
          "exc": rng.choice(["ValueError", "KeyboardInterrupt", "MemoryError",
                             "StopIteration", "RuntimeError", "TypeError",
                             "AttributeError", "IndexError"])}
    if key == "vel":
        op["val"] = rng.choice(EVIL_VEL)
        op["after"] = rng.choice([0, 0, 1, 2, 3])
        if "attribute" in op["val"] and op["exc"] == "AttributeError":
            op["exc"] = "RuntimeError"      # means: there is no derivative
    elif key == "fit":
        op["val"] = rng.choice(EVIL_FIT)
    return op


def model_set(cfg, key, val):
    """Apply an accepted setting to the model of the settings."""
    val = copy.deepcopy(val)
    if key == "ic":
        cfg["ic"] = val
        cfg["dm"] = None
        cfg["sd"] = None
    else:
        cfg[key] = val
    if key in ("dm", "sd") and cfg.get("ic") and cfg.get("dm") is not None \
            and (cfg["cls"] != "H" or cfg.get("sd") is not None):
        cfg["ic"] = None        # nothing of it remains


def gen_bad(rng, cfg, solver_only=False):
    """Draw an operation that has to be refused in configuration cfg."""
    has_manual = not cfg.get("ic") or cfg["ic"]["kind"] == "manual"
    keys = ["vel", "vel", "deriv", "nu", "dm"]
    if cfg["cls"] == "H":
        keys.append("sd")
        if not has_manual:
            keys += ["sd unsupported"]*2
    else:
        keys.append("fit")
    if not has_manual:
        keys += ["dm unsupported"]*2
    if not solver_only:
        keys.append("solve")
    key = rng.choice(keys)
    if key == "vel":
        return {"op": "bad", "key": "vel", "val": rng.choice(BAD_VEL)}
    if key == "deriv":
        return {"op": "bad", "key": "vel", "val": rng.choice(BAD_DERIV),
                "exc": rng.choice(["ValueError", "KeyboardInterrupt",
                                   "MemoryError", "StopIteration",
                                   "RuntimeError"])}
    if key == "fit":
        return {"op": "bad", "key": "fit", "val": rng.choice(BAD_FIT)}
    if key == "nu":
        return {"op": "bad", "key": "nu", "val": rng.choice(sorted(BAD_NUM))}
    if key in ("dm", "sd"):
        return {"op": "bad", "key": key, "val": rng.choice(sorted(BAD_NUM))}
    if key == "solve":
        return {"op": "bad", "key": "solve",
                "val": rng.choice(["nan start", "nan end", "text"])}
    return {"op": "bad", "key": key, "val": ""}


def gen_nudge(rng, cfg):
    """Draw a setting which is nearly the one in force, or None."""
    keys = ["nu", "nu"] + [k for k in ("dm", "sd", "crit")
                           if cfg.get(k) is not None and not cfg.get("ic")]
    if cfg["vel"]["form"] != "mix" and "a" in cfg["vel"]:
        keys.append("vel")
    if isinstance(cfg.get("fit"), dict):
        keys.append("fit")
    key = rng.choice(keys)
    fac = 1 + rng.choice([-1, 1])*10**rng.uniform(-6, -2)
    val = copy.deepcopy(cfg[key])
    if key == "vel":
        val.pop("reuse", None)
        val["a"] = float(f"{val['a']*fac:.10g}")
    elif key == "fit":
        val.pop("reuse", None)
        val[rng.choice("sh")][0] *= fac
    else:
        val = float(f"{val*fac:.10g}")
    return {"op": "set", "key": key, "val": val}


def gen_set(rng, cfg, x0, x1):
    """Draw accepted settings (list of operations) for a solver."""
    cls = cfg["cls"]
    if rng.random() < 0.2:
        op = gen_nudge(rng, cfg)
        if op:
            return [op]
    new = bl.gen_cfg(rng, x0, x1, cls=cls)
    key = rng.choice(["nu", "vel", "vel", "dm", "fitcrit", "fitcrit", "ic",
                      "sd" if cls == "H" else "dm"])
    out = []
    if key == "fitcrit":
        key = "crit" if cls == "H" else "fit"
        out = [(key, new[key])]
        if key == "fit" and isinstance(cfg["fit"], dict) \
                and rng.random() < 0.6:
            out = [(key, flows.gen_fit_again(rng, cfg["fit"]))]
    elif key == "ic":
        kind = rng.choice(["manual", "stag", "user"])
        dm = new["dm"]
        if kind == "manual":
            out = [("ic", {"kind": "manual", "dm": dm,
                           "dd": round(dm*rng.uniform(1.3, 1.8), 9)})]
        elif kind == "stag":
            out = [("ic", {"kind": "stag"})]
        else:
            out = [("ic", {"kind": "user", "dm": 0.2, "dd": 0.3,
                           "sd": bl.rnd(rng, 1.35, 1.7, 3)})]
    elif key in ("dm", "sd") and cfg.get("ic"):
        if cfg["ic"]["kind"] != "manual":
            # the condition has to be replaced by one that can hold the value
            out = [("ic", {"kind": "manual", "dm": new["dm"],
                           "dd": round(new["dm"]*1.5, 9)})]
        else:
            out = [("dm", new["dm"])]
            if cls == "H":
                out.append(("sd", new["sd"]))
    else:
        out = [(key, new[key])]
        if key == "vel" and rng.random() < 0.35:
            again = flows.gen_again(rng, cfg["vel"], x0, x1, cls == "H")
            if again:
                out = [(key, again)]
    return [{"op": "set", "key": k, "val": v} for k, v in out]


def gen_faults(rng, slot, x0, x1, cls, n=None, exc=None, what=None):
    """Draw faults of the user's functions during a solve."""
    out = []
    for _ in range(n or rng.choice([1, 1, 2])):
        sites = [f"{slot}.u", f"{slot}.u", f"{slot}.du", f"{slot}.du"]
        if cls in ("TL", "TN"):
            sites += [f"{slot}.shear"]
        if cls == "TN":
            sites += [f"{slot}.shape"]
        sites += [f"{slot}.event*", f"{slot}.*", f"{slot}.ic*"]
        f = {"site": rng.choice(sites)}
        if rng.random() < 0.5:
            f["call"] = int(10**rng.uniform(0, 2.6))
        else:
            f["x"] = round(x0 + (x1 - x0)*rng.uniform(0, 1), 5)
            f["dir"] = 1 if x1 >= x0 else -1
        f["do"] = what or rng.choice(exc or ["ValueError", "TypeError",
                                             "ZeroDivisionError",
                                             "StopIteration", "MemoryError",
                                             "KeyboardInterrupt",
                                             "RuntimeError", "nan", "nan"])
        f["times"] = rng.choice([1, 1, -1])
        out.append(f)
    return out


def gen_history(rng, n_slots, n_ops, faults=True, bad=True, events=True):
    """Draw a history; returns (ops, model configurations, ranges)."""
    ops = []
    cfgs = {}
    ranges = {}
    past_events = {}
    for s in range(n_slots):
        name = f"s{s}"
        x0, x1 = bl.gen_range(rng)
        cfg = bl.gen_cfg(rng, x0, x1)
        ranges[name] = (x0, x1)
        cfgs[name] = cfg
        ops.append({"op": "new", "slot": name, "cfg": copy.deepcopy(cfg)})
    for _ in range(n_ops):
        name = rng.choice(sorted(cfgs))
        x0, x1 = ranges[name]
        cfg = cfgs[name]
        r = rng.random()
        if r < 0.3:
            for op in gen_set(rng, cfg, x0, x1):
                op["slot"] = name
                ops.append(op)
                model_set(cfg, op["key"], op["val"])
        elif r < 0.65:
            op = {"op": "solve", "slot": name, "x0": x0, "x1": x1}
            if rng.random() < 0.4:
                op["x1"] = round(x0 + (x1 - x0)*rng.uniform(0.2, 0.95), 5)
            if events:
                evs = bl.gen_events(rng, x0, x1)
                if evs:
                    op["events"] = evs
                    op["mode"] = rng.choice(["list", "single"])
            if past_events.get(name) and events and rng.random() < 0.3:
                op["events"], op["mode"] = copy.deepcopy(past_events[name])
                op["again"] = True
            if op.get("events"):
                past_events[name] = (op["events"], op["mode"])
            if faults and rng.random() < 0.4:
                op["faults"] = gen_faults(rng, name, x0, x1, cfg["cls"])
            ops.append(op)
        elif r < 0.8:
            x = round(x0 + (x1 - x0)*rng.random(), 5)
            if rng.random() < 0.4:
                x = [x, round(x0 + (x1 - x0)*rng.random(), 5), x]
            ops.append({"op": "query", "slot": name,
                        "prop": rng.choice(bl.PROPS), "x": x})
        elif r < 0.83 and cfg["vel"].get("give") in ("pts", "dpts"):
            ops.append({"op": "scribble", "slot": name})
        elif r < 0.94 and bad:
            op = gen_bad(rng, cfg)
            op["slot"] = name
            ops.append(op)
        else:
            ops.append(rng.choice([
                {"op": "analytic", "what": "blasius", "u": 10.0, "nu": 1e-5},
                {"op": "analytic", "what": "fs", "beta": 1.0, "u": 10.0,
                 "nu": 1e-5, "fw": 1.2325876570, "eta": 6.0}]))
            if rng.random() < 0.15 and len(cfgs) < 4:
                # drop a solver and make a new one of the same name
                x0, x1 = ranges[name]
                cfg = bl.gen_cfg(rng, x0, x1)
                cfgs[name] = cfg
                ops.append({"op": "new", "slot": name,
                            "cfg": copy.deepcopy(cfg)})
    return ops, cfgs, ranges
