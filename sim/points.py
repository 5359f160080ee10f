"""Points at which an operation can be interrupted or a thread preempted.

A point is every bytecode instruction of the package and every start of a
Python function of a library that the package has called (directly or not).
Code of the simulator itself, and whatever it calls, has no points.
"""
import gc
import os
import sys
import types

from sim import core

TOOL = 4
CODES = []               # every code object of the package
_IBL = os.path.join(os.path.realpath(core.REPO), "ibl") + os.sep
_SIM = os.path.join(os.path.realpath(core.VERIF), "sim") + os.sep
_KIND = {}


def kind_of(code):
    """Return "ibl", "sim", "import" or "lib"."""
    name = code.co_filename
    got = _KIND.get(name)
    if got is None:
        if name.startswith("<frozen importlib"):
            got = "import"
        else:
            path = os.path.realpath(name) if name[:1] != "<" else name
            got = "ibl" if path.startswith(_IBL) else \
                "sim" if path.startswith(_SIM) else "lib"
        _KIND[name] = got
    return got


def collect():
    """Find the code of the package (after it has been imported)."""
    seen = {}

    def add(code):
        if id(code) in seen:
            return
        seen[id(code)] = code
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                add(c)
    for obj in gc.get_objects():
        if isinstance(obj, types.FunctionType) \
                and kind_of(obj.__code__) == "ibl":
            add(obj.__code__)
    CODES[:] = sorted(seen.values(), key=lambda c: (
        c.co_filename, c.co_firstlineno, c.co_qualname))


def called_by_package(frame):
    """True if package code called frame with no simulator in between."""
    while frame is not None:
        kind = kind_of(frame.f_code)
        if kind == "ibl":
            return True
        if kind in ("sim", "import"):
            return False
        frame = frame.f_back
    return False


class Tracer:
    """Calls hit(location) at every point while it is on."""

    def __init__(self, hit, lib=True):
        self._hit = hit
        self._lib = lib
        self._busy = False

    def on(self):
        """Start tracing."""
        mon = sys.monitoring
        ev = mon.events
        if mon.get_tool(TOOL) is None:
            mon.use_tool_id(TOOL, "simpoints")
        mon.register_callback(TOOL, ev.INSTRUCTION, self._instruction)
        mon.register_callback(TOOL, ev.PY_START, self._start)
        for code in CODES:
            mon.set_local_events(TOOL, code, ev.INSTRUCTION)
        if self._lib:
            mon.restart_events()
            mon.set_events(TOOL, ev.PY_START)

    def off(self):
        """Stop tracing."""
        mon = sys.monitoring
        mon.set_events(TOOL, 0)
        for code in CODES:
            mon.set_local_events(TOOL, code, 0)

    def _instruction(self, code, offset):
        self._hit((code.co_filename[len(_IBL):], code.co_qualname, offset))

    def _start(self, code, _offset):
        kind = kind_of(code)
        if kind != "lib":
            return sys.monitoring.DISABLE
        # pylint: disable-next=protected-access
        if called_by_package(sys._getframe(1).f_back):
            self._hit(("lib", code.co_qualname, 0))
        return None
