"""C16: a similarity object is always one consistent solution."""
import copy

from sim import bl, flows, seams, simil
from sim.core import Violation
from sim.prop import Prop


def subject(world, plan):
    """Carry out the history and observe all objects after every step."""
    integ = seams.IntegratorSeam(world).install()
    num = seams.SimilaritySeam(world).install()
    objs = {}
    out = []
    for op in plan["ops"]:
        integ.arm([f for f in op.get("faults", []) if "where" not in f])
        num.arm([f for f in op.get("faults", []) if "where" in f])
        i = op["o"]
        if op["do"] == "new":
            s = simil.Sim(world)
            res = s.create(op["args"])
            if res[0] == "ok":
                objs[i] = s
        elif i in objs:
            res = objs[i].act(op)
        else:
            res = ("skip", None)
        fired = integ.fired + num.fired
        integ.arm([])
        num.arm([])
        world.log(op["do"], res[:3])
        obs = {k: s.observe() for k, s in sorted(objs.items())}
        world.log(obs)
        out.append({"res": res[:3], "fired": len(fired), "obs": obs})
        world.state(op["do"], res[0], len(fired), len(out), sorted(
            (s.kind for s in objs.values())))
    return out


def twin(world, state):
    """Report of a new object with the arguments of a state."""
    s = simil.Sim(world)
    res = s.create(state)
    if res[0] != "ok":
        return ("exc", res[1], res[2])
    if state.get("solved"):
        # the object was told to find everything itself
        res = s.act({"do": "params"})
        if res[0] != "ok":
            return ("exc", res[1], res[2])
    return ("ok", s.observe())


class C16(Prop):
    ID = "C16"
    QUICK = 1500
    THOROUGH = 40000
    RULE = ("A run is a history of construction, set_solution_parameters, "
            "reset_beta, reset_m and changes of the reference values on one "
            "or two objects, some invalid and some failing inside the "
            "integrator, the root finder or the quadrature (failure, "
            "exception or interrupt); after every step everything the "
            "objects report is compared with a new object in a new process "
            "given the last accepted arguments. Non-trivial: at least one "
            "accepted and one refused or failed change of an existing "
            "object. Distinct by history digest.")
    STATES = ("distinct (operation, outcome, faults fired, position in "
              "history, kinds of objects alive)")
    REAL = ["ibl.analytic", "scipy integrator, root finder and quadrature"]
    STUB = ["scipy integrator step, root finder and quadrature only where a "
            "fault is injected"]
    ASSUME = ["observed between operations of one thread",
              "interrupts arrive at integrator steps, root finder and "
              "quadrature calls (other instructions: C09)"]

    def gen(self, rng, idx, tier):
        ops = []
        n_obj = rng.choice([1, 1, 1, 2])
        kinds = {i: rng.choice(["FS", "FS", "B"]) for i in range(n_obj)}

        now = {}             # wedge parameters, if all goes well

        def near(b=None):
            b, fw, eta = rng.choice([t for t in simil.TABLE
                                     if b is None or t[0] == b])
            fw = float(f"{fw*(1 + rng.choice([0, 0, 1e-3])):.9g}")
            eta = float(f"{eta*rng.choice([1, 1, 0.97, 0.8]):.9g}")
            return b, fw, eta

        def solution(kind, full, b=None):
            """Return beta, fw, eta: given, partly given or to be found."""
            keep = b is not None
            b, fw, eta = near(b)
            if kind == "B":
                b, fw, eta = 0.0, 0.4696*rng.choice([1, 1.003]), \
                    rng.choice([7.1, 6.5, 5.9, 8.0])
            if full:
                if b not in (-0.05, 0.0, 0.2, 0.6, 1.0):
                    if keep:
                        return b, fw, eta
                    b = rng.choice([-0.05, 0.0, 0.2, 0.6, 1.0])
                return b, None, None
            r = rng.random()
            if r < 0.08 and b <= 0.8:
                # (the search takes very long for larger ones)
                return b, None, round(eta*0.8, 4)
            if 0.08 <= r < 0.14 and b >= 0:
                # with another shear the limit may be very far out
                return b, [t[1] for t in simil.TABLE if t[0] == b][0], None
            return b, round(fw, 9), eta

        for i in range(n_obj):
            b, fw, eta = solution(kinds[i], rng.random() < 0.04)
            now[i] = b
            if kinds[i] == "B" and rng.random() < 0.4:
                fw = eta = None
            ops.append({"o": i, "do": "new", "args": {
                "kind": kinds[i], "beta": b, "fw": fw, "eta": eta,
                "u": rng.choice([1, 2.5, 10.0]),
                "nu": rng.choice([1e-5, 1.5e-5, 0.1])}})
        full_left = 1 if rng.random() < 0.07 else 0
        for _ in range(rng.randrange(2, 9)):
            i = rng.randrange(n_obj)
            kind = kinds[i]
            do = rng.choice(["params", "beta", "beta", "m", "u_ref", "nu_ref",
                             "params", "poke", "new"]
                            if kind == "FS" else
                            ["params", "params", "params", "u_ref", "nu_ref",
                             "poke"])
            if do == "new" and rng.random() < 0.7:
                do = "beta"
            op = {"o": i, "do": do}
            if do in ("u_ref", "nu_ref"):
                op["val"] = rng.choice([1, 0.5, 3.0, 1e-3, 20, 0, -1.0, "x",
                                        None, [1.0]])
            elif do == "new":
                b, fw, eta = solution(kind, False)
                op["args"] = {"kind": kind, "beta": b, "fw": fw, "eta": eta,
                              "u": rng.choice([1, 2.0, -1.0]),
                              "nu": rng.choice([1e-5, 0.1, 0])}
            elif do != "poke":
                full = full_left > 0 and rng.random() < 0.5
                full_left -= full
                b, fw, eta = solution(kind, full, now[i]
                                      if do == "params" else None)
                op["fw"], op["eta"] = fw, eta
                now[i], was = b, now[i]
                if do == "beta":
                    op["val"] = b
                elif do == "m":
                    op["val"] = "inf" if b == 2.0 else b/(2 - b)
                r = rng.random()
                if r < 0.12:
                    op["eta"] = rng.choice([0, -1.0, "nan", -7, "x"])
                elif r < 0.24:
                    op["fw"] = rng.choice([0, -0.4, "nan", "x"])
                elif r < 0.36 and do == "beta":
                    op["val"] = rng.choice([2.0001, -0.2, 5, "nan", "inf",
                                            None, "x", -0.198841])
                elif r < 0.36 and do == "m":
                    op["val"] = rng.choice([-1.0, -0.5, "nan", -2.0, None,
                                            "x", -1])
                elif r < 0.46:
                    # velocity does not reach its outer value: fails late
                    op["eta"] = 0.7
                elif r < 0.72:
                    op["faults"] = [self.gen_fault(rng, full)]
                elif r < 0.75:
                    op["fw"] = "inf"
                bad = (op.get("fw"), op.get("eta"), op.get("val")) != (
                    fw, eta, b if do == "beta" else None if do == "params"
                    else "inf" if b == 2.0 else b/(2 - b))
                if bad or "faults" in op:
                    now[i] = was
            if do == "new" and op["args"]["u"] > 0 and op["args"]["nu"] > 0:
                now[i] = op["args"]["beta"]
            ops.append(op)
        return {"ops": ops}

    @staticmethod
    def gen_fault(rng, full):
        """Draw a fault of an operation."""
        exc = rng.choice(["KeyboardInterrupt", "MemoryError", "ValueError",
                          "RuntimeError", "FloatingPointError"])
        r = rng.random()
        top = 400 if full else 40
        if r < 0.3:
            return {"step": rng.randrange(1, top),
                    "do": rng.choice(["fail", exc])}
        if r < 0.5:
            return {"dense": rng.randrange(1, 40), "do": exc}
        if r < 0.75:
            return {"where": "root", "call": 1,
                    "do": rng.choice(["unconverged", exc])}
        return {"where": "quad", "call": 1,
                "do": rng.choice(["unconverged", exc])}

    def run(self, plan, ctx):
        out = ctx.world("subject", subject, plan)
        state = {}
        known = {}

        def report(st):
            key = repr(sorted(st.items(), key=str))
            if key not in known:
                known[key] = ctx.world(f"twin{len(known)}", twin, st)
            return known[key]

        accepted = refused = 0
        for op, step in zip(plan["ops"], out):
            i = op["o"]
            res = step["res"]
            if res[0] == "skip":
                continue
            before = state.get(i)
            new = self.after(before, op)
            text = f"after {op} on {before}"
            if new is not None:
                if res[0] == "ok":
                    want = report(new)
                    if want[0] != "ok":
                        raise Violation(
                            "accepted what a new object refuses",
                            f"{text}: new object {want}")
                    state[i] = new
                    accepted += before is not None
                else:
                    refused += before is not None
                    if not step["fired"]:
                        want = report(new)
                        if want[0] == "ok":
                            raise Violation(
                                "refused what a new object accepts",
                                f"{text}: {res}")
            elif op["do"] == "poke" and res[0] != "ok":
                raise Violation("query failed", f"{text}: {res}")
            for k, obs in step["obs"].items():
                want = report(state[k])
                if want[0] != "ok":
                    continue       # cannot happen: accepted above
                d = simil.same(obs, want[1])
                if d:
                    raise Violation(
                        "report is not that of the accepted solution",
                        f"object {k} {text} ({res}): {d}")
            meta = ctx.metas[0]
            if step["fired"]:
                meta["probes"][f"{op['do']} failed"] = \
                    meta["probes"].get(f"{op['do']} failed", 0) + 1
            elif res[0] == "exc":
                meta["probes"][f"{op['do']} refused"] = \
                    meta["probes"].get(f"{op['do']} refused", 0) + 1
        ctx.nontrivial = accepted >= 1 and refused >= 1

    @staticmethod
    def after(st, op):
        """State the object has if op is accepted (None: no change)."""
        do = op["do"]
        if do == "poke":
            return None
        if do == "new":
            return copy.deepcopy(op["args"])
        new = dict(st)
        if do == "u_ref":
            new["u"] = op["val"]
            return new
        if do == "nu_ref":
            new["nu"] = op["val"]
            return new
        new["fw"], new["eta"] = op.get("fw"), op.get("eta")
        new.pop("solved", None)
        if st["kind"] == "B" and new["fw"] is None and new["eta"] is None:
            new["solved"] = True
        if do == "beta":
            new["beta"] = op["val"]
        elif do == "m":
            m = op["val"]
            # what the documentation says: m = beta/(2 - beta)
            try:
                v = simil.num(m)
                new["beta"] = 2.0 if v == float("inf") else 2*v/(1 + v)
            except (TypeError, ZeroDivisionError):
                new["beta"] = "invalid"
        return new

    def simpler(self, plan):
        def drop(k, key):
            def fn(p):
                if key not in p["ops"][k]:
                    return None
                del p["ops"][k][key]
                return p
            return fn
        return [drop(k, "faults") for k in range(len(plan["ops"]))]


PROP = C16()
