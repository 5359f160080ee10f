"""Seeded scheduler of the threads of the code under test.

Real threads execute, one at a time: only the thread that holds the token
runs, and it may be given away at every point (see sim.points), whenever a
function of the user is called, and when a simulated lock blocks.
"""
import random
import _thread

from sim import locks, points
from sim.core import SimHang, Violation


class Scheduler:
    """Runs functions as threads under a schedule.

    spec: {"how": "random", "p", "seed"}: away with probability p;
    {"how": "pct", "at": [...], "seed"}: random priorities, lowered at the
    points given; {"how": "park", "n": k or "loc": [...], "nth", "for": m}:
    the thread that comes to this point waits until the others have gone
    through m points (None: ended); {"how": "often", "freq": {place: times},
    "c", "long"}: a thread waits about c times at every place, each time until
    another has gone through up to 10**long points; {"how": "list",
    "switches": [[thread, its point, to], ...]}; {"how": "none"}.
    """

    def __init__(self, world, spec, record=False):
        self.world = world
        self.spec = spec
        self.rng = random.Random(f"sched:{spec.get('seed', 0)}")
        self.cur = None
        self.n = 0
        self.count = []
        self.where = []
        self.done = []
        self.blocked_on = []
        self.batons = []
        self.switches = []
        self.table = {} if record else None
        self.dead = None
        self.errors = []
        self._end = _thread.allocate_lock()
        self._hit = {}
        self._park = None
        self._prio = []
        self._list = None
        self._back = None
        self.tracer = points.Tracer(self.point)

    # ---- running
    def run(self, fns):
        """Run functions in threads to their end."""
        n = len(fns)
        self.count = [0]*n
        self.where = [("start", "", 0)]*n
        self.done = [False]*n
        self.blocked_on = [None]*n
        self.batons = [_thread.allocate_lock() for _ in range(n)]
        for b in self.batons:
            b.acquire()
        self._end.acquire()
        self._prio = list(range(n))
        self.rng.shuffle(self._prio)
        if self.spec["how"] == "list":
            self._list = {(t, k): to for t, k, to in self.spec["switches"]}
        self.tracer.on()
        locks.SCHED = self
        for i, fn in enumerate(fns):
            _thread.start_new_thread(self._thread, (i, fn))
        self.cur = 0
        if self.spec["how"] == "pct":
            self.cur = self._best()
        elif self.spec["how"] in ("random", "often"):
            self.cur = self.rng.randrange(n)
        elif self.spec.get("first"):
            self.cur = self.spec["first"] % n
        self.batons[self.cur].release()
        self._end.acquire()
        locks.SCHED = None
        self.cur = None
        self.tracer.off()
        for exc in self.errors:
            raise exc
        if self.dead:
            raise Violation("deadlock", self.dead)

    def _thread(self, i, fn):
        self.batons[i].acquire()
        try:
            fn()
        except BaseException as exc:  # pylint: disable=broad-except
            if isinstance(exc, (Violation, SimHang)):
                self.errors.append(exc)
            else:
                self.errors.append(RuntimeError(f"thread {i}: {exc!r}"))
        self.done[i] = True
        if self.dead:
            return
        nxt = self._others(i)
        if not nxt:
            left = [k for k, d in enumerate(self.done) if not d]
            if left:
                self.dead = f"threads {left} wait for locks never released"
            self._end.release()
            return
        self._go(self._pick(nxt))

    def _others(self, me):
        return [k for k in range(len(self.done)) if k != me
                and not self.done[k] and (self.blocked_on[k] is None
                                          or not self.blocked_on[k].locked())]

    def _pick(self, nxt):
        """Choose who goes on when the running thread cannot."""
        if self.spec["how"] == "pct":
            return min(nxt, key=lambda k: self._prio[k])
        if self.spec["how"] in ("random", "often"):
            return self.rng.choice(nxt)
        return nxt[0]

    def _go(self, to):
        self.cur = to
        self.blocked_on[to] = None
        self.batons[to].release()

    def _switch(self, to):
        me = self.cur
        self.switches.append([me, self.count[me], to])
        self.world.fault("preemption")
        self.world.state(self.where[me], self.where[to])
        self.world.log(me, self.count[me], to)
        self._go(to)
        self.batons[me].acquire()

    # ---- points
    def point(self, loc):
        """The running thread has come to a point."""
        me = self.cur
        if me is None:
            return
        self.n += 1
        self.count[me] += 1
        self.where[me] = loc
        if self.table is not None:
            self.table[loc] = self.table.get(loc, 0) + 1
        to = self._decide(me, loc)
        if to is not None and to != me:
            self._switch(to)

    def callback(self, site):
        """A function of the user is called."""
        self.point(("user", site.split(".")[-1], 0))

    def blocked(self, lock):
        """The running thread has to wait for a lock."""
        me = self.cur
        self.blocked_on[me] = lock
        nxt = self._others(me)
        if not nxt:
            self.dead = f"thread {me} waits for a lock at {self.where[me]}"
            self._end.release()
            _thread.exit()
        self.world.fault("lock waited for")
        self._switch(self._pick(nxt))

    def _best(self):
        ready = [k for k in range(len(self.done)) if not self.done[k]
                 and (self.blocked_on[k] is None
                      or not self.blocked_on[k].locked())]
        return min(ready, key=lambda k: self._prio[k])

    def _decide(self, me, loc):
        how = self.spec["how"]
        if how == "random":
            if self.rng.random() < self.spec["p"]:
                nxt = self._others(me)
                if nxt:
                    return self.rng.choice(nxt)
        elif how == "pct":
            if self.n in self.spec["at"]:
                self._prio[me] = 100 + self.n
                return self._best()
        elif how == "park":
            if self._park is None:
                if "loc" in self.spec:
                    if list(loc) != self.spec["loc"]:
                        return None
                    k = self._hit[me] = self._hit.get(me, 0) + 1
                    here = k == self.spec["nth"]
                else:
                    here = self.n == self.spec["n"]
                if here:
                    nxt = self._others(me)
                    if nxt:
                        self._park = [me, self.spec.get("for")]
                        return nxt[self.spec.get("to", 0) % len(nxt)]
            elif self._park[0] != me and self._park[1] is not None:
                self._park[1] -= 1
                if self._park[1] <= 0 and not self.done[self._park[0]]:
                    to = self._park[0]
                    self._park[1] = None
                    return to
        elif how == "often":
            if self._back is not None and self._back[0] != me:
                self._back[1] -= 1
                if self._back[1] <= 0:
                    to, self._back = self._back[0], None
                    if to in self._others(me):
                        return to
                return None
            self._back = None
            if self.rng.random()*self.spec["freq"].get(loc, 1) \
                    < self.spec["c"]:
                nxt = self._others(me)
                if nxt:
                    self._back = [me, int(10**self.rng.uniform(
                        0, self.spec["long"]))]
                    return self.rng.choice(nxt)
        elif how == "list":
            to = self._list.get((me, self.count[me]))
            if to is not None and to in self._others(me):
                return to
        return None
