"""Locks that the thread scheduler can see.

They replace those of the threading module before ibl is imported, so that a
lock used anywhere in the code under test blocks a simulated thread instead of
the process.  Without a scheduler they behave like the ones they replace.
"""
import threading
import _thread

SCHED = None                # the active scheduler (sim.sched), if any


class SimLock:
    """Replacement of threading.Lock and threading.RLock."""

    REENTRANT = False

    def __init__(self):
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        while True:
            if self._count == 0:
                self._owner = me
                self._count = 1
                return True
            if self.REENTRANT and self._owner == me:
                self._count += 1
                return True
            if not blocking or timeout >= 0 and SCHED is None:
                return False
            if SCHED is None:
                raise RuntimeError("simulated lock would block for ever")
            SCHED.blocked(self)

    def release(self):
        if self._count == 0:
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None

    def locked(self):
        return self._count > 0

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *_exc):
        self.release()

    # used by threading.Condition
    def _is_owned(self):
        return self._count > 0 and self._owner == _thread.get_ident()

    def _release_save(self):
        state = self._count
        self._count = 0
        self._owner = None
        return state

    def _acquire_restore(self, state):
        self.acquire()
        self._count = state


class SimRLock(SimLock):
    """Replacement of threading.RLock."""

    REENTRANT = True


def install():
    """Replace the lock types (before the code under test is imported)."""
    threading.Lock = SimLock
    threading.RLock = SimRLock
