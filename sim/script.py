"""Scripts of operations on solvers, similarity solutions and readers."""
import copy

from sim import bl, flows, hist, loads, simil


class Stage:
    """Everything that is alive in one world of a script."""

    def __init__(self, world, plan, root):
        self.world = world
        self.env = flows.Env(world)
        self.hist = hist.History(world, self.env)
        self.sims = {}
        self.bench = loads.Bench(world, {"files": plan.get("files", [])},
                                 root)
        self.last = None

    def name(self, op):
        """Return what an operation is about: (kind, name)."""
        if op["k"] == "solver":
            return ("solver", op.get("slot"))
        return (op["k"], op["r"] if op["k"] == "reader" else op["o"])

    def do(self, op):
        """Carry out an operation; return ("ok", data) or ("exc", ...)."""
        k = op["k"]
        if k == "solver":
            if op["op"] == "observe":
                slot = self.hist.slots.get(op["slot"])
                if slot is None:
                    return None
                return ("ok", [slot.observe(op["xs"]), slot.settings()])
            return self.hist.do(op)
        if k == "sim":
            return self._sim(op)
        return self._reader(op)

    def _sim(self, op):
        if op["do"] == "new":
            s = simil.Sim(self.world)
            res = s.create(copy.deepcopy(op["args"]))
            if res[0] == "ok":
                self.sims[op["o"]] = s
        elif op["o"] not in self.sims:
            return None
        elif op["do"] == "observe":
            res = ("ok", self.sims[op["o"]].observe())
        elif op["do"] == "ask":
            res = self.sims[op["o"]].ask(op["what"], op.get("where", 0))
        else:
            res = self.sims[op["o"]].act(op)
        self.world.log("sim", op["o"], op["do"], res[:3])
        return res

    def _reader(self, op):
        name = op["r"]
        if op["op"] == "load":
            res = self.bench.load(op)
            out = res["out"]
            if out[0] == "ok":
                return ("ok", None)
            return ("exc", out[1], out[2].replace(self.bench.disk.root, ""),
                    bl.chain(out[3]))
        if name not in self.bench.readers:
            return None
        kind, reader = self.bench.readers[name]
        if op["op"] == "poke":
            return bl.guard(self.world, self.bench.poke, op)
        if op["op"] == "clear":
            def clear():
                if kind == "dump":
                    reader.filename = ""
                else:
                    reader.case = ""
            return bl.guard(self.world, clear)
        if op["op"] == "view":
            return bl.guard(self.world, self.bench.view, kind, reader)
        raise KeyError(op["op"])

    def report(self, who, xs):
        """Return all that an object reports, or None if there is none."""
        kind, name = who
        if kind == "solver":
            slot = self.hist.slots.get(name)
            if slot is None:
                return None
            return {"obs": slot.observe(xs), "set": slot.settings()}
        if kind == "sim":
            s = self.sims.get(name)
            return None if s is None else s.observe()
        if name not in self.bench.readers:
            return None
        return self.bench.view(*self.bench.readers[name])

    def everything(self, xs):
        """Return what all objects report."""
        out = {}
        for name in sorted(self.hist.slots):
            out[f"solver {name}"] = self.report(("solver", name), xs)
        for name in sorted(self.sims):
            out[f"sim {name}"] = self.report(("sim", name), xs)
        for name in sorted(self.bench.readers):
            out[f"reader {name}"] = self.report(("reader", name), xs)
        return out
