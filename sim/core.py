"""Runs, worlds, ticks, the seeded batch runner, minimisation and replay.

A *run* is a plan (JSON data drawn from one PRNG seeded by property, VERIF_SEED
and the run's number) and its execution, which is a pure function of the plan
and the code under test.  Everything that executes code under test does so in
a *world*: a process forked from one that has imported the package but never
called it.  Subject and reference executions of one run use separate worlds.
"""
import collections
import gc
import hashlib
import json
import os
import pickle
import random
import resource
import select
import signal
import struct
import sys
import time
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WALL_WORLD = 240.0      # seconds; exceeding it is an error of the harness


class Violation(Exception):
    """The property does not hold in this run."""

    def __init__(self, kind, detail=""):
        super().__init__(kind, detail)
        self.kind = kind
        self.detail = detail


class HarnessError(Exception):
    """The harness itself went wrong; no statement on the property."""


class Unjudged(Exception):
    """The run makes no statement on the property."""


class SimHang(BaseException):
    """Work budget of an operation is used up."""


# --------------------------------------------------------------------------
# simulated clock: one tick per Python function start or backward jump
# --------------------------------------------------------------------------
class Ticks:
    """Deterministic measure of work done, used as simulated time."""

    def __init__(self):
        self.total = 0
        self._left = None
        self._over = False
        self._on = False

    def start(self):
        mon = sys.monitoring
        if mon.get_tool(3) is None:
            mon.use_tool_id(3, "simticks")
        mon.register_callback(3, mon.events.PY_START, self._tick)
        mon.register_callback(3, mon.events.PY_RESUME, self._tick)
        mon.register_callback(3, mon.events.JUMP, self._tick_jump)
        mon.set_events(3, mon.events.PY_START | mon.events.PY_RESUME
                       | mon.events.JUMP)
        self._on = True

    def stop(self):
        if self._on:
            sys.monitoring.set_events(3, 0)
            self._on = False

    def budget(self, n):
        """Raise SimHang when another n ticks have passed (None: never)."""
        self._over = False
        self._left = n

    def _tick(self, _code, _off):
        self.total += 1
        if self._left is not None:
            self._left -= 1
            if self._left < 0:
                # stay over budget until harness code sets a new one; again
                # and again in case the code under test swallows this, with
                # pauses in which the harness can take over
                if self._left < -2000000:
                    os._exit(77)
                if self._left % 4000 == 3999:
                    raise SimHang("work budget used up")

    def _tick_jump(self, code, off, dest):
        if dest < off:
            self._tick(code, off)


# --------------------------------------------------------------------------
# worlds
# --------------------------------------------------------------------------
class World:
    """What executes in one forked process, and all that it records."""

    def __init__(self, name):
        self.name = name
        self.ticks = Ticks()
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.states = set()
        self.march = 0.0
        self.given = None        # results handed out, if they are wanted
        self._sha = hashlib.sha256()
        self.n_events = 0
        self.tail = collections.deque(maxlen=60)

    def log(self, *items):
        text = repr(items)
        self._sha.update(text.encode())
        self._sha.update(b"\n")
        self.n_events += 1
        self.tail.append(text[:300])

    def fault(self, kind, n=1):
        self.faults[kind] += n

    def probe(self, name, n=1):
        self.probes[name] += n

    def state(self, *key):
        self.states.add(hashlib.blake2b(repr(key).encode(),
                                        digest_size=8).digest())

    def fail(self, kind, detail=""):
        raise Violation(kind, detail)

    def meta(self):
        return {"name": self.name, "ticks": self.ticks.total,
                "faults": dict(self.faults), "probes": dict(self.probes),
                "states": self.states, "march": self.march,
                "digest": self._sha.hexdigest(), "events": self.n_events,
                "tail": list(self.tail)}


def _write_all(fd, data):
    view = memoryview(data)
    while view:
        n = os.write(fd, view)
        view = view[n:]


def _world_child(wfd, name, fn, args):
    world = World(name)
    try:
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        world.ticks.start()
        try:
            value = fn(world, *args)
            world.ticks.stop()
            res = ("ok", value)
        except Violation as exc:
            world.ticks.stop()
            res = ("violation", exc.kind, exc.detail)
        except SimHang:
            world.ticks.stop()
            res = ("hang", "".join(traceback.format_exc()[-1500:]))
    except BaseException:  # pylint: disable=broad-except
        world.ticks.stop()
        res = ("error", traceback.format_exc())
    try:
        data = pickle.dumps((res, world.meta()), protocol=4)
    except BaseException:  # pylint: disable=broad-except
        data = pickle.dumps((("error", traceback.format_exc()), None),
                            protocol=4)
    _write_all(wfd, struct.pack("<Q", len(data)) + data)
    os._exit(0)


class Ctx:
    """Coordinator of one run: never calls code under test itself."""

    def __init__(self, plan):
        self.plan = plan
        self.metas = []
        self._sha = hashlib.sha256()
        self.nontrivial = False
        self.key = None
        self.sample = None

    def world(self, name, fn, *args, hang="violation"):
        """Execute fn(world, *args) in a new process; return its value.

        hang: what using up the work budget means, "violation", "return" (it)
        or "unjudged": the undisturbed case already takes too long.
        """
        rfd, wfd = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rfd)
                _world_child(wfd, name, fn, args)
            finally:
                os._exit(99)
        os.close(wfd)
        end = time.monotonic() + WALL_WORLD
        buf = bytearray()
        try:
            while True:
                left = end - time.monotonic()
                if left <= 0:
                    os.kill(pid, signal.SIGKILL)
                    raise HarnessError(f"world {name} exceeded wall limit")
                ready, _, _ = select.select([rfd], [], [], left)
                if ready:
                    data = os.read(rfd, 1 << 20)
                    if not data:
                        break
                    buf += data
        finally:
            os.close(rfd)
            _, status = os.waitpid(pid, 0)
        if len(buf) < 8:
            if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 77:
                # swallowed the end of its work budget again and again
                self._sha.update(b"hang77")
                if hang == "violation":
                    raise Violation("hang", f"world {name} never ends")
                if hang == "unjudged":
                    raise Unjudged(name)
                return ("hang", "")
            raise HarnessError(f"world {name} ended with status {status}")
        res, meta = pickle.loads(bytes(buf[8:]))
        if meta is not None:
            self.metas.append(meta)
            self._sha.update(f"{name}:{meta['digest']}:{meta['ticks']}\n"
                             .encode())
        if res[0] == "ok":
            return res[1]
        if res[0] == "violation":
            raise Violation(res[1], res[2])
        if res[0] == "hang":
            if hang == "violation":
                raise Violation("hang", f"operation in world {name} did not "
                                "end within its work budget; at\n" + res[1])
            if hang == "unjudged":
                raise Unjudged(name)
            return ("hang", res[1])
        raise HarnessError(f"world {name}: {res[1]}")

    def digest(self):
        return self._sha.hexdigest()


def set_budget(world, n):
    world.ticks.budget(n)


# --------------------------------------------------------------------------
# one run
# --------------------------------------------------------------------------
def rng_for(prop_id, seed, idx):
    return random.Random(f"{prop_id}:{seed}:{idx}")


def make_plan(prop, seed, idx, tier):
    rng = rng_for(prop.ID, seed, idx)
    plan = prop.gen(rng, idx, tier)
    plan = json.loads(json.dumps(plan))
    return plan


def execute(prop, plan):
    """Execute plan and return a result dictionary."""
    ctx = Ctx(plan)
    out = {"violation": None, "error": None}
    try:
        prop.run(plan, ctx)
    except Violation as exc:
        out["violation"] = {"kind": exc.kind, "detail": str(exc.detail)[:4000]}
    except Unjudged:
        ctx.nontrivial = False
        if ctx.metas:
            ctx.metas[0]["probes"]["not judged: work budget used up"] = 1
    except HarnessError as exc:
        out["error"] = str(exc)
    except Exception:  # pylint: disable=broad-except
        out["error"] = traceback.format_exc()
    faults = collections.Counter()
    probes = collections.Counter()
    states = set()
    march = 0.0
    ticks = 0
    events = 0
    for m in ctx.metas:
        faults.update(m["faults"])
        probes.update(m["probes"])
        states |= m["states"]
        march += m["march"]
        ticks += m["ticks"]
        events += m["events"]
    out.update(digest=ctx.digest(), faults=dict(faults), probes=dict(probes),
               states=states, march=march, ticks=ticks, events=events,
               worlds=len(ctx.metas), nontrivial=bool(ctx.nontrivial),
               key=ctx.key, tails={m["name"]: m["tail"] for m in ctx.metas})
    return out


# --------------------------------------------------------------------------
# worker pool
# --------------------------------------------------------------------------
def _worker(rfd, wfd, prop, seed, tier):
    gc.freeze()
    while True:
        head = b""
        while len(head) < 8:
            got = os.read(rfd, 8 - len(head))
            if not got:
                os._exit(0)
            head += got
        idx = struct.unpack("<q", head)[0]
        try:
            t0 = time.monotonic()
            plan = make_plan(prop, seed, idx, tier)
            t1 = time.monotonic()
            res = execute(prop, plan)
            res["t_gen"] = t1 - t0
            res["t_run"] = time.monotonic() - t1
            if res["violation"] is None:
                res.pop("tails")
        except BaseException:  # pylint: disable=broad-except
            res = {"violation": None, "error": traceback.format_exc()}
        data = pickle.dumps((idx, res), protocol=4)
        _write_all(wfd, struct.pack("<Q", len(data)) + data)


class Pool:
    """Worker processes which execute runs; results do not depend on it."""

    def __init__(self, prop, seed, tier, workers):
        self.procs = []
        for _ in range(workers):
            r1, w1 = os.pipe()
            r2, w2 = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(w1)
                    os.close(r2)
                    for p in self.procs:
                        os.close(p["to"])
                        os.close(p["from"])
                    _worker(r1, w2, prop, seed, tier)
                finally:
                    os._exit(98)
            os.close(r1)
            os.close(w2)
            self.procs.append({"pid": pid, "to": w1, "from": r2, "buf":
                               bytearray(), "idx": None})

    def run(self, indices, on_result, stop):
        """Execute runs; on_result(idx, res); stop() ends dispatching."""
        todo = collections.deque(indices)
        busy = 0
        for p in self.procs:
            if todo and not stop():
                self._give(p, todo.popleft())
                busy += 1
        while busy:
            fds = [p["from"] for p in self.procs if p["idx"] is not None]
            ready, _, _ = select.select(fds, [], [], 600)
            if not ready:
                raise HarnessError("no worker answered for 600 s")
            for p in self.procs:
                if p["from"] not in ready:
                    continue
                data = os.read(p["from"], 1 << 20)
                if not data:
                    raise HarnessError("worker ended during run "
                                       f"{p['idx']}")
                p["buf"] += data
                if len(p["buf"]) < 8:
                    continue
                n = struct.unpack("<Q", p["buf"][:8])[0]
                if len(p["buf"]) < 8 + n:
                    continue
                idx, res = pickle.loads(bytes(p["buf"][8:8 + n]))
                del p["buf"][:8 + n]
                p["idx"] = None
                busy -= 1
                on_result(idx, res)
                if todo and not stop():
                    self._give(p, todo.popleft())
                    busy += 1
        return len(todo)

    @staticmethod
    def _give(p, idx):
        p["idx"] = idx
        _write_all(p["to"], struct.pack("<q", idx))

    def close(self):
        for p in self.procs:
            os.close(p["to"])
        for p in self.procs:
            os.close(p["from"])
            try:
                os.kill(p["pid"], signal.SIGKILL)
            except ProcessLookupError:
                pass
            os.waitpid(p["pid"], 0)


# --------------------------------------------------------------------------
# minimisation
# --------------------------------------------------------------------------
def minimise(prop, plan, kind, max_exec=160, max_wall=150.0):
    """Shrink plan while the same kind of violation persists."""
    end = time.monotonic() + max_wall
    count = [0]

    def still(cand):
        if count[0] >= max_exec or time.monotonic() > end:
            return False
        count[0] += 1
        res = execute(prop, json.loads(json.dumps(cand)))
        return (res["error"] is None and res["violation"] is not None
                and res["violation"]["kind"] == kind)

    def ddmin(cand, path):
        items = cand
        for p in path:
            items = items[p]
        n = 2
        items = list(items)
        while len(items) >= 1:
            size = max(1, len(items) // n)
            some = False
            i = 0
            while i < len(items):
                trial_items = items[:i] + items[i + size:]
                trial = json.loads(json.dumps(cand))
                tgt = trial
                for p in path[:-1]:
                    tgt = tgt[p]
                tgt[path[-1]] = trial_items
                if still(trial):
                    items = trial_items
                    cand = trial
                    some = True
                else:
                    i += size
            if size == 1 and not some:
                break
            if not some:
                n = min(len(items), n * 2)
        return cand

    changed = True
    rounds = 0
    while changed and rounds < 3:
        before = json.dumps(plan, sort_keys=True)
        for path in prop.lists(plan):
            try:
                plan = ddmin(plan, path)
            except (KeyError, IndexError, TypeError):
                continue        # path vanished with an earlier entry
        for change in prop.simpler(plan):
            cand = json.loads(json.dumps(plan))
            try:
                cand = change(cand)
            except (KeyError, IndexError, TypeError, ValueError):
                continue
            if cand is not None and cand != plan and still(cand):
                plan = cand
        changed = json.dumps(plan, sort_keys=True) != before
        rounds += 1
    return plan, count[0]
