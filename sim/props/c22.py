"""C22: the library leaves the process alone and does not depend on it."""
import atexit
import copy
import decimal
import faulthandler
import gc
import io
import locale
import logging
import os
import random
import resource
import signal
import socket
import sys
import threading
import time
import tracemalloc
import warnings

import numpy as np

from sim import bl, disk, watch
from sim.core import Violation
from sim.prop import Prop
from sim.props import c18

MODULES = ["numpy", "numpy.linalg", "math", "builtins", "scipy.integrate",
           "scipy.interpolate", "scipy.optimize", "io", "os", "os.path",
           "warnings", "pathlib", "json", "random", "sys"]
SKIP = {"sys": {"last_exc", "last_type", "last_value", "last_traceback",
                "stdout", "stderr"}, "builtins": {"_"}}


class Out(io.StringIO):
    """Stand-in for standard output."""


def modules():
    """Return identities of what well-known modules hold."""
    out = {}
    for name in MODULES:
        mod = sys.modules.get(name)
        if mod is not None:
            out[name] = {k: id(v) for k, v in vars(mod).items()
                         if not k.startswith("__") and k not in SKIP.get(
                             name, ())}
    return out


def snapshot():
    """Return the state of the process that others may depend on."""
    with open("/proc/self/status", encoding="ascii") as h:
        status = dict(line.split(":", 1) for line in h)
    fds = {}
    for fd in os.listdir("/proc/self/fd"):
        try:
            fds[fd] = os.readlink(f"/proc/self/fd/{fd}")
        except OSError:
            pass
    fds = {k: v for k, v in fds.items() if "/proc/" not in v}
    root = logging.getLogger()
    return {
        "numpy error handling": (np.geterr(), np.geterrcall(),
                                 np.getbufsize()),
        "numpy print options": repr(np.get_printoptions()),
        "numpy random state": repr(np.random.get_state()),
        "random state": hash(random.getstate()),
        "warnings": (list(map(str, warnings.filters)),
                     id(warnings.showwarning), id(warnings.formatwarning)),
        "working directory": os.getcwd(),
        "environment": dict(os.environ),
        "locale": locale.setlocale(locale.LC_ALL),
        "time zone": time.tzname,
        "decimal context": str(decimal.getcontext()),
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "signal handlers": [(int(s), str(signal.getsignal(s)))
                            for s in (signal.SIGINT, signal.SIGTERM,
                                      signal.SIGALRM, signal.SIGCHLD,
                                      signal.SIGPIPE, signal.SIGFPE)],
        "timers": [signal.getitimer(t) for t in (signal.ITIMER_REAL,
                                                 signal.ITIMER_VIRTUAL)],
        "garbage collector": (gc.isenabled(), gc.get_threshold(),
                              gc.get_debug(), len(gc.callbacks)),
        "threads": (threading.active_count(), status["Threads"].strip()),
        "umask": status.get("Umask"),
        "descriptors": fds,
        "limits": (threading.stack_size(), resource.getrlimit(
            resource.RLIMIT_STACK), resource.getrlimit(resource.RLIMIT_AS),
            os.getpriority(os.PRIO_PROCESS, 0),
            sys.get_int_max_str_digits(), socket.getdefaulttimeout()),
        "signal mask": sorted(map(int, signal.pthread_sigmask(
            signal.SIG_BLOCK, []))),
        "diagnosis": (faulthandler.is_enabled(), tracemalloc.is_tracing(),
                      atexit._ncallbacks()),
        "hooks": (id(sys.excepthook), id(sys.displayhook),
                  id(threading.excepthook), id(sys.unraisablehook),
                  sys.gettrace() is None, sys.getprofile() is None),
        "paths": (list(sys.path), len(sys.meta_path), len(sys.path_hooks)),
        "logging": (root.level, [str(h) for h in root.handlers],
                    logging.root.manager.disable),
        "standard streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin),
                             sys.stdout and sys.stdout.getvalue(),
                             sys.stderr and sys.stderr.getvalue()),
    }


def no_warning(*_args, **_kw):
    """Show a warning (which is for the process to decide)."""


class Alone:
    """Looks at the state of the process after every operation."""

    def __init__(self, world):
        self.world = world
        self.state = None
        self.mods = None

    def look(self, stage, op, res):
        """Compare the state with the one at the start."""
        if op is None:
            self.state = snapshot()
            self.mods = modules()
            return
        now = snapshot()
        for key, val in self.state.items():
            if now[key] != val:
                self.world.fail("state of the process changed",
                                f"{key} by {op}: {val!r:.400} -> "
                                f"{now[key]!r:.400}")
        mods = modules()
        for name, was in self.mods.items():
            for k, v in was.items():
                if mods[name].get(k) != v:
                    self.world.fail("module of others changed",
                                    f"{name}.{k} by {op}")
        self.world.state(op["k"], op.get("op", op.get("do")),
                         op.get("key", op.get("prop", "")),
                         None if res is None else res[:2], bool(op.get(
                             "hit")))
        del stage


def surround(world, env, root):
    """Put the process into the state described by env."""
    for key in sorted(env):
        val = env[key]
        world.probe(f"process state varied: {key}")
        if key == "numpy errors":
            np.seterr(**val)
        elif key == "numpy print":
            np.set_printoptions(precision=val, threshold=2)
        elif key == "warnings":
            warnings.resetwarnings()
            warnings.simplefilter(val)
        elif key == "cwd":
            d = os.path.join(root, "elsewhere")
            os.makedirs(d, exist_ok=True)
            os.chdir(d)
        elif key == "random":
            random.seed(val)
            np.random.seed(val)
        elif key == "decimal":
            decimal.getcontext().prec = val
        elif key == "locale":
            locale.setlocale(locale.LC_ALL, val)
        elif key == "recursion":
            sys.setrecursionlimit(val)
        elif key == "gc":
            gc.enable()
            gc.set_threshold(*val)
        elif key == "switch":
            sys.setswitchinterval(val)
        elif key == "streams":
            sys.stdout = sys.stderr = None
        elif key == "variables":
            for k, v in val.items():
                os.environ[k] = v
            time.tzset()
        elif key == "umask":
            os.umask(val)
        elif key == "logging":
            logging.disable(val)
            logging.getLogger().setLevel(1)
        elif key == "signals":
            signal.signal(signal.SIGINT, signal.SIG_IGN)
        else:
            raise KeyError(key)


def run_script(world, plan, root, varied):
    """Carry out the script in a process of a certain state."""
    gc.disable()
    out = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = Out(), Out()
    warnings.showwarning = no_warning
    try:
        if varied:
            surround(world, plan["env"], root)
        look = Alone(world)
        stage, res = watch.play(world, plan, root, look.look)
        end = {}
        for who in sorted({c18.party(o) for o in plan["ops"]}):
            kind = next(o["k"] for o in plan["ops"] if c18.party(o) == who)
            end[who] = stage.report((kind, who), plan["xs"].get(who, []))
        look.look(stage, {"k": "all", "op": "queries"}, None)
    finally:
        sys.stdout, sys.stderr = out
    return res, end


def kinds(res):
    """Return result without the texts of exceptions."""
    if isinstance(res, dict):
        return {k: kinds(v) for k, v in res.items()}
    if isinstance(res, (list, tuple)):
        if len(res) > 1 and res[0] == "exc":
            return ["exc", res[1]]
        return [kinds(v) for v in res]
    return res


class C22(Prop):
    ID = "C22"
    QUICK = 1300
    THOROUGH = 40000
    RULE = ("A run is an interleaved script of operations on 1-6 solvers, "
            "similarity solutions and readers, with callback faults, file "
            "damage and errors and refused calls. After every operation the "
            "state of the process is compared with that at the start: "
            "floating point error handling, warning filters, random "
            "generators, working directory, environment, locale, signal "
            "handlers and timers, descriptors, threads, standard streams, "
            "limits, hooks, contents of well-known modules. Half of the runs "
            "interrupt operations at drawn instructions; the others are "
            "repeated in a process of another state, and have to give the "
            "same. Non-trivial: at least three operations. Distinct by "
            "history digest.")
    STATES = ("distinct (kind of object, operation, setting or property, "
              "outcome, interrupted)")
    REAL = ["all of ibl", "scipy", "io, pathlib, importlib.resources"]
    STUB = ["raw files (sim.disk)", "user-supplied objects",
            "integrator step, root finder and quadrature where a fault is "
            "injected", "standard streams (recorded)"]
    ASSUME = ["warnings and floating point signals that the process turns "
              "into exceptions are not varied: they are failures it asks "
              "for", "texts of exceptions may depend on numpy's print "
              "options"]

    def gen(self, rng, idx, tier):
        plan = copy.deepcopy(c18.PROP.gen(rng, idx, tier))
        if rng.random() < 0.5:
            watch.interrupts(rng, plan["ops"], 0.3)
            return plan
        all_env = {
            "numpy errors": {k: rng.choice(["ignore", "warn"])
                             for k in ("divide", "over", "under",
                                       "invalid")},
            "numpy print": rng.choice([1, 3, 17]),
            "warnings": rng.choice(["ignore", "always", "once", "default"]),
            "cwd": True,
            "random": rng.randrange(1000),
            "decimal": rng.choice([1, 3, 50]),
            "locale": rng.choice(["C", "POSIX", "C.UTF-8"]),
            "recursion": rng.choice([300, 5000]),
            "gc": rng.choice([[1, 1, 1], [50, 2, 2], [700, 10, 10]]),
            "switch": rng.choice([1e-6, 0.5]),
            "streams": True,
            "variables": {"TZ": "Asia/Tokyo", "LANG": "de_DE", "HOME": "/",
                          "TMPDIR": "/nowhere", "PYTHONHASHSEED": "7"},
            "umask": rng.choice([0o077, 0]),
            "logging": rng.choice([0, 50]),
            "signals": True}
        if all_env["numpy errors"] and rng.random() < 0.3:
            all_env["numpy errors"] = dict.fromkeys(
                ("divide", "over", "under", "invalid"), "ignore")
        plan["env"] = {k: all_env[k] for k in sorted(rng.sample(
            sorted(all_env), rng.choice([1, 2, 4, len(all_env)])))}
        return plan

    def run(self, plan, ctx):
        if not plan["ops"]:
            return
        res, end = disk.scratch(lambda root: ctx.world(
            "as usual", run_script, plan, root, False, hang="unjudged"))
        ctx.nontrivial = len(res) > 2
        if "env" not in plan:
            return
        res2, end2 = disk.scratch(lambda root: ctx.world(
            "surrounded", run_script, plan, root, True))
        d = bl.differ(kinds(res), kinds(res2), 1e-12) \
            or bl.differ(kinds(end), kinds(end2), 1e-12)
        if d:
            raise Violation("depends on the state of the process",
                            f"{plan['env']}: {d}")

    def lists(self, plan):
        return c18.PROP.lists(plan)

    def simpler(self, plan):
        def drop(key):
            def fn(p):
                del p["env"][key]
                return p
            return fn
        return [drop(k) for k in plan.get("env", {})]


PROP = C22()
