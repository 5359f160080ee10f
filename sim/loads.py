"""Histories of file loads on readers, with a faulty file system (C11-C14)."""
import gc
import os

import numpy as np

from sim import disk, files
from sim.core import REPO

CASE_DIR = os.path.join(REPO, "ibl", "data", "stanford_olympics", "1968")
SHIPPED = ["1100", "1200", "1300", "2200", "2300"]
TEST_DUMPS = ["xfoil_viscous_dump.txt", "xfoil_inviscid_dump.txt"]
READ_ERR = ["EIO", "EIO", "ESTALE", "ENOMEM", "EISDIR", "MemoryError",
            "TimeoutError", "KeyboardInterrupt"]
OPEN_ERR = ["ENOENT", "EACCES", "EMFILE", "ENFILE", "EIO", "EISDIR",
            "ENODEV", "MemoryError"]
BUDGET = 40_000_000
SETTINGS = ["u_ref", "name", "c", "alpha", "reynolds", "n_trans",
            "x_trans_upper", "x_trans_lower"]
STAT_ERR = ["EACCES", "EIO", "ENOENT", "ELOOP", "ESTALE"]


class Bench:
    """Readers, files and the reference of one world."""

    def __init__(self, world, plan, root):
        from ibl.reference import StanfordOlympics1968, XFoilReader
        self.world = world
        self.cls = {"dump": XFoilReader, "case": StanfordOlympics1968}
        self.disk = disk.Disk(world, root)
        self.readers = {}        # name -> (kind, reader)
        self.files = []
        for i, f in enumerate(plan["files"]):
            vers = []
            for v in f["versions"]:
                if v is None:
                    vers.append(None)
                    continue
                vers.append(files.damage(files.make(v["spec"]),
                                         v.get("damage", [])))
            kind = f["kind"]
            if kind == "dump":
                ref = path = self.disk.path(f"dump{i}.txt")
                if f.get("rel"):
                    ref = os.path.relpath(path)
            else:
                ref = f["case"]
                path = os.path.join(CASE_DIR, f"case {ref}.txt")
            intact = [v is not None and not v.get("damage")
                      for v in f["versions"]]
            self.files.append({"kind": kind, "ref": ref, "path": path,
                               "data": vers, "intact": intact, "i": i,
                               "damage": [v.get("damage", []) if v else []
                                          for v in f["versions"]]})
            twin = f"case{i}" if kind == "case" else None
            self.disk.put(path, [vers[0]], twin)
        self.disk.install()
        self.blank = {}
        for kind in ("dump", "case"):
            self.blank[kind] = self.view(kind, self.cls[kind]())

    @staticmethod
    def view(kind, reader):
        v = files.view_dump(reader) if kind == "dump" \
            else files.view_case(reader)
        return v

    def views(self):
        return {n: self.view(k, r) for n, (k, r) in sorted(
            self.readers.items())}

    def call(self, fn):
        """Execute fn watched by the disk; return its outcome."""
        self.disk.watch = True
        self.world.ticks.budget(BUDGET)
        try:
            try:
                fn()
                out = ("ok",)
            except BaseException as exc:  # pylint: disable=broad-except
                from sim.core import SimHang, Violation
                if isinstance(exc, (SimHang, Violation)):
                    raise
                out = ("exc", type(exc).__name__, str(exc)[:120], exc)
        finally:
            self.disk.watch = False
        self.world.ticks.budget(None)
        return out

    def load(self, op):
        """Execute a load; return everything that is judged."""
        f = self.files[op["file"]]
        vers = [f["data"][v] for v in op["ver"]]
        intact = all(f["intact"][v] for v in op["ver"]) \
            and len(set(op["ver"])) == 1
        twin = f"case{f['i']}" if f["kind"] == "case" else None
        self.disk.put(f["path"], vers, twin)
        self.disk.arm({f["path"]: op.get("opens", [])}, op.get("stat"))
        before_dir = self.disk.snapshot()
        before_fd = len(os.listdir("/proc/self/fd"))
        name = op["r"]
        kind = f["kind"]
        new = name not in self.readers or self.readers[name][0] != kind
        if op.get("ctor"):
            made = []

            def go():
                if kind == "dump":
                    made.append(self.cls[kind](f["ref"]))
                else:
                    made.append(self.cls[kind](case=f["ref"]))
            out = self.call(go)
            if made:
                self.readers[name] = (kind, made[0])
                new = False
            else:
                new = True
        else:
            if new:
                self.readers[name] = (kind, self.cls[kind]())
                new = False
            reader = self.readers[name][1]

            def go():
                if kind == "dump":
                    reader.filename = f["ref"]
                else:
                    reader.case = f["ref"]
            out = self.call(go)
        dk = self.disk
        means = []
        for data in vers:
            if data is None:
                means.append(("invalid", "missing file"))
            else:
                means.append(files.meaning(data, kind, f["ref"]))
        res = {"out": out, "kind": kind, "file": f, "vers": vers,
               "intact": intact, "means": means,
               "damage": [d for v in op["ver"] for d in f["damage"][v]],
               "fired": list(dk.fired), "writes": list(dk.writes),
               "open": dk.open_handles(), "n_open": len(dk.handles),
               "dir": dk.snapshot() != before_dir,
               "fds": len(os.listdir("/proc/self/fd")) - before_fd,
               "made": not new}
        dk.arm()
        self.world.log("load", name, op["file"], op["ver"], out[:2],
                       res["fired"], res["n_open"])
        self.world.state(kind, out[:2], [m[0] for m in means],
                         sorted(set(res["fired"])), bool(op.get("ctor")))
        return res

    def poke(self, op):
        """Let the user change what belongs to one reader."""
        if op["r"] not in self.readers:
            return False
        kind, r = self.readers[op["r"]]
        val = op["val"]
        what = op["what"]
        if kind == "dump":
            if what == "settings":
                new = {"u_ref": abs(val) + 0.5, "name": f"mine {val}",
                       "c": 2.0 + abs(val), "alpha": 0.1*val,
                       "reynolds": 1e6 + abs(val), "n_trans": 9.0 - val,
                       "x_trans_upper": 0.3 + 0.01*val,
                       "x_trans_lower": 0.4 + 0.01*val}
                for key in op.get("keys", sorted(new)):
                    setattr(r, key, new[key])
                return True
            n = r.upper_count()
            if n == 0:
                return False
            st = r.upper(op["k"] % n)
            st.x = val
            st.delta_m = abs(val)
            st.u_e_rel = val
            r.lower(op["k"] % r.lower_count()).y = val
            if r.wake_count():
                r.wake(0).x = val
            if what == "reset":
                st.reset("")
            for a in (r.x_upper(), r.s_lower(), r.u_e_wake()):
                if a.flags.writeable:
                    a[...] = val
            return True
        n = r.station_count()
        if n == 0:
            return False
        st = r.station(op["k"] % n)
        st.x = val
        st.c_f = abs(val)
        for a in (r.x_smooth(), r.u_e_smooth(), r.x(), r.c_f(),
                  r.y(op["k"] % n), r.u(op["k"] % n)):
            if a.size and a.flags.writeable:
                a[...] = val
        if what == "reset":
            st.reset(False, " ".join(["1"]*11), "", [])
        return True

    def empty(self, name):
        """Return None or what a reader holds although its load failed."""
        kind, r = self.readers[name]
        v = self.view(kind, r)
        blank = self.blank[kind]
        for key in sorted(blank):
            if not _eq(v[key], blank[key]):
                return f"{key} is {str(v[key])[:200]}"
        return None


def _eq(a, b):
    if isinstance(a, (list, tuple)):
        return (isinstance(b, (list, tuple)) and len(a) == len(b)
                and all(_eq(x, y) for x, y in zip(a, b)))
    if isinstance(a, dict):
        return set(a) == set(b) and all(_eq(a[k], b[k]) for k in a)
    return a == b or (a != a and b != b)


def describe(op, res):
    """Return text on a load for reports."""
    out = f"{op}: {res['out'][:3]}, fired {res['fired']}"
    for m in res["means"]:
        if m[0] != "data":
            out += f", file is {m}"
    return out


# --------------------------------------------------------------------------
# judges
# --------------------------------------------------------------------------
def judge_content(world, bench, op, res):
    """The load is complete and exact, or it failed (C11, C12)."""
    hard = [f for f in res["fired"] if f[0] in ("read", "open")]
    soft = [f for f in res["fired"] if f[0] in ("close", "stat")]
    text = describe(op, res)
    if res["out"][0] == "exc":
        if res["intact"] and not hard and not soft:
            world.fail("intact file refused", text)
        world.probe("refused")
        return
    if hard:
        world.fail("error of the file system ignored", text)
    means = res["means"]
    if all(m[0] == "invalid" for m in means):
        world.fail("uninterpretable contents accepted", text)
    if any(m[0] == "unknown" for m in means):
        world.probe("contents without a definite meaning")
        return
    kind, reader = bench.readers[op["r"]]
    view = bench.view(kind, reader)
    cmp = files.compare_dump if kind == "dump" else files.compare_case
    diffs = [cmp(m[1], view) for m in means if m[0] == "data"]
    if all(d is not None for d in diffs):
        world.fail("loaded data are not those of the file",
                   f"{text}\n{diffs[0]}")
    world.probe("loaded" + ("" if res["intact"] else " damaged file"))


def judge_agree(world, bench, op, res):
    """Contradictions are refused, and nothing else is (C23)."""
    text = describe(op, res)
    if res["fired"]:
        world.probe("disturbed load")
        return
    means = res["means"]
    if any(m[0] != "data" for m in means):
        return
    worst = [files.conflicts(m[1]) for m in means]
    if any(w[0] is None for w in worst):
        return
    world.state("agree", sorted(round(min(w[0], 3.0), 1) for w in worst))
    if all(w[0] > 1 + 1e-4 for w in worst):
        if res["out"][0] == "ok":
            world.fail("contradiction accepted", f"{text}\n{worst}")
        if res["made"]:
            left = bench.empty(op["r"])
            if left:
                world.fail("data left after a contradiction",
                           f"{text}\n{left}")
        world.probe("contradiction refused")
    elif all(w[0] < 1 - 1e-4 for w in worst):
        if res["out"][0] == "exc":
            if all(d["do"] in ("given", "scale")
                   for d in res["damage"]):
                world.fail("consistent case refused", f"{text}\n{worst}")
            return
        view = bench.view(*bench.readers[op["r"]])
        diffs = [files.compare_case(m[1], view) for m in means]
        if all(d is not None for d in diffs):
            world.fail("loaded data are not those of the file",
                       f"{text}\n{diffs[0]}")
        world.probe("consistent case loaded")


def judge_after(world, bench, op, res, before):
    """A failed load leaves nothing and harms nothing (C13)."""
    text = describe(op, res)
    name = op["r"]
    kind = res["kind"]
    if res["out"][0] == "exc":
        if res["made"]:
            left = bench.empty(name)
            if left:
                world.fail("data left after a failed load",
                           f"{text}\n{left}")
        world.probe("failed load")
    elif not res["fired"]:
        # not what this or another reader held before
        judge_content(world, bench, op, res)
        view = bench.view(*bench.readers[name])
        want = os.path.basename(str(res["file"]["ref"]))
        got = view["filename" if kind == "dump" else "case"]
        if got != want:
            world.fail("reader does not name what it loaded",
                       f"{text}\nnames {got!r}")
    for other, view in before.items():
        if other == name and res["made"]:
            continue
        now = bench.view(*bench.readers[other])
        if not _eq(now, view):
            key = [k for k in view if not _eq(now[k], view[k])]
            world.fail("another reader changed", f"{text}\nreader {other}: "
                       f"{key[:4]}")
    # what a new reader does with the same file
    if not res["fired"] and len(set(op["ver"])) == 1:
        f = res["file"]
        fresh = []

        def go():
            fresh.append(bench.cls[kind]())
            if kind == "dump":
                fresh[0].filename = f["ref"]
            else:
                fresh[0].case = f["ref"]
        out = bench.call(go)
        if out[0] != res["out"][0] or out[1:2] != res["out"][1:2]:
            world.fail("load differs from that of a new reader",
                       f"{text}\nnew reader: {out[:3]}")
        if out[0] == "ok":
            a = bench.view(kind, fresh[0])
            b = bench.view(*bench.readers[name])
            if not _eq(a, b):
                key = [k for k in a if not _eq(a[k], b[k])]
                world.fail("load differs from that of a new reader",
                           f"{text}\nin {key[:4]}")
            world.probe("load as by a new reader")


def judge_handles(world, _bench, op, res):
    """Everything is closed and nothing written (C14)."""
    text = describe(op, res)
    if res["open"]:
        world.fail("file left open", text)
    if res["fds"] > 0:
        world.fail("file descriptor left open", text)
    if res["writes"]:
        world.fail("load writes", f"{text}\n{res['writes'][:3]}")
    if res["dir"]:
        world.fail("load changes the file system", text)
    if res["n_open"]:
        world.probe("files opened and closed", res["n_open"])


def subject(world, plan, root, what):
    """Execute the history of loads."""
    gc.disable()
    bench = Bench(world, plan, root)
    n_exc = n_ok = 0
    for op in plan["ops"]:
        if op["op"] == "load":
            before = bench.views() if what == "after" else None
            res = bench.load(op)
            if what == "content":
                judge_content(world, bench, op, res)
            elif what == "after":
                judge_after(world, bench, op, res, before)
            elif what == "agree":
                judge_agree(world, bench, op, res)
            else:
                judge_handles(world, bench, op, res)
            n_exc += res["out"][0] == "exc"
            n_ok += res["out"][0] == "ok"
        elif op["op"] == "poke":
            if bench.poke(op):
                world.probe("reader changed by its user")
        elif op["op"] == "clear" and op["r"] in bench.readers:
            kind, r = bench.readers[op["r"]]
            if kind == "dump":
                r.filename = ""
            else:
                r.case = ""
            if what == "after":
                left = bench.empty(op["r"])
                if left:
                    world.fail("data left after clearing", f"{op}: {left}")
    return {"exc": n_exc, "ok": n_ok}


# --------------------------------------------------------------------------
# plans
# --------------------------------------------------------------------------
def gen_open(rng, errors):
    """Return what one open of a file delivers."""
    plan = {}
    r = rng.random()
    if r < 0.5:
        plan["chunks"] = [rng.choice([1, 1, 2, 3, 7, 17, 64, 113, 120, 512,
                                      4096])
                          for _ in range(rng.choice([1, 1, 2, 5]))]
    if rng.random() < 0.2:
        plan["eintr"] = sorted({rng.randrange(1, 9) for _ in range(3)})
    if rng.random() < 0.2:
        plan["buffer"] = rng.choice([1, 2, 16, 100, 1024])
    if rng.random() < 0.05:
        plan["pipe"] = True
    if not errors:
        return plan
    r = rng.random()
    if r < 0.35:
        plan["read_err"] = {"call": rng.choice([1, 1, 2, 2, 3, 5, 20]),
                            "do": rng.choice(READ_ERR)}
    elif r < 0.65:
        plan["read_err"] = {"at": rng.choice([0, 1, 100, 120, 1000,
                                              rng.randrange(8000)]),
                            "do": rng.choice(READ_ERR)}
    elif r < 0.85:
        plan["open_err"] = rng.choice(OPEN_ERR)
    else:
        plan["close_err"] = rng.choice(["EIO", "EIO", "ENOMEM", "ESTALE"])
    return plan


def gen_plan(rng, kinds, n_readers, n_ops, p_err=0.3, p_damage=0.5,
             p_poke=0.12):
    """Return a history of loads."""
    out_files = []
    n_files = rng.choice([1, 2, 2, 3])
    ids = rng.sample(range(100), n_files)
    for k in range(n_files):
        kind = rng.choice(kinds)
        f = {"kind": kind, "versions": []}
        if kind == "case":
            f["case"] = f"{rng.choice([1, 1, 2, 3])}{ids[k]:02d}9"
        if rng.random() < 0.12:
            if kind == "case":
                f["case"] = rng.choice([c for c in SHIPPED if all(
                    g.get("case") != c for g in out_files)])
        def spec():
            if kind == "dump":
                if rng.random() < 0.12:
                    return {"kind": "real", "path": os.path.join(
                        REPO, "tests", "data", rng.choice(TEST_DUMPS))}
                return files.gen_dump_spec(rng)
            if f["case"] in SHIPPED:
                return {"kind": "real", "path": os.path.join(
                    CASE_DIR, f"case {f['case']}.txt")}
            return files.gen_case_spec(rng, f["case"])
        base = spec()
        f["versions"].append({"spec": base})
        for _ in range(rng.choice([1, 2, 3])):
            r = rng.random()
            if r < 0.1:
                f["versions"].append(None)
            elif r < 0.1 + p_damage:
                f["versions"].append({"spec": base if rng.random() < 0.8
                                      else spec(), "damage": [
                    files.gen_damage(rng)
                    for _ in range(rng.choice([1, 1, 1, 2, 3]))]})
            elif r < 0.9:
                f["versions"].append({"spec": spec()})
            else:           # the file of another case under this name
                if kind == "case":
                    f["versions"].append({"spec": files.gen_case_spec(
                        rng, rng.choice(["1999", "2999"])), "damage": [
                            {"do": "append", "text": ""}]})
                else:
                    f["versions"].append({"spec": spec()})
        out_files.append(f)
    ops = []
    names = [f"r{i}" for i in range(n_readers)]
    for _ in range(n_ops):
        if ops and rng.random() < p_poke:
            ops.append({"op": "poke", "r": rng.choice(names),
                        "what": rng.choice(["values", "settings", "reset"]),
                        "k": rng.randrange(5),
                        "val": round(rng.uniform(-3, 3), 3)})
            if rng.random() < 0.5:
                ops[-1]["keys"] = rng.sample(SETTINGS, rng.choice([1, 2]))
            continue
        if ops and rng.random() < 0.06:
            ops.append({"op": "clear", "r": rng.choice(names)})
            continue
        i = rng.randrange(n_files)
        nv = len(out_files[i]["versions"])
        v = rng.randrange(nv)
        op = {"op": "load", "r": rng.choice(names), "file": i, "ver": [v]}
        if rng.random() < 0.1:
            op["ver"].append(rng.randrange(nv))
        if rng.random() < 0.2:
            op["ctor"] = True
        err = rng.random() < p_err
        if err or rng.random() < 0.5:
            op["opens"] = [gen_open(rng, err)]
        if rng.random() < 0.04:
            op["stat"] = rng.choice(STAT_ERR)
        ops.append(op)
    return {"files": out_files, "ops": ops}


def lists(plan):
    out = [["ops"]]
    for i, f in enumerate(plan["files"]):
        for j, v in enumerate(f["versions"]):
            if v and len(v.get("damage", [])) > 1:
                out.append(["files", i, "versions", j, "damage"])
    return out


def simpler(plan):
    out = []
    for i, op in enumerate(plan["ops"]):
        for key in ("opens", "stat", "ctor"):
            if key in op:
                def drop(p, i=i, key=key):
                    p["ops"][i].pop(key, None)
                    return p
                out.append(drop)
        if len(op.get("ver", [])) > 1:
            def one(p, i=i):
                p["ops"][i]["ver"] = p["ops"][i]["ver"][:1]
                return p
            out.append(one)
        if op.get("opens"):
            for key in ("chunks", "eintr", "buffer", "pipe", "read_err",
                        "open_err", "close_err"):
                if key in op["opens"][0]:
                    def less(p, i=i, key=key):
                        p["ops"][i]["opens"][0].pop(key, None)
                        return p
                    out.append(less)
    for i, f in enumerate(plan["files"]):
        for j, v in enumerate(f["versions"]):
            if v and v["spec"]["kind"] != "real":
                for key in ("upper", "lower", "wake", "stations", "smooth",
                            "samples"):
                    if v["spec"].get(key, 0) > 2:
                        def small(p, i=i, j=j, key=key):
                            p["files"][i]["versions"][j]["spec"][key] = 2
                            return p
                        out.append(small)
                for key in ("crlf", "wide", "tiny", "zero", "end", "head"):
                    if key in v["spec"]:
                        def plain(p, i=i, j=j, key=key):
                            p["files"][i]["versions"][j]["spec"].pop(key,
                                                                     None)
                            return p
                        out.append(plain)
    return out
