"""Operations on the similarity solutions, as seen by their user."""
import numpy as np

from sim import bl

# wedge parameter, wall shear and outer limit of accurate solutions
TABLE = [(-0.198, 0.025094320665093935, 8.3043815936155),
         (-0.19, 0.08569975394738868, 8.065656097750441),
         (-0.15, 0.21636140938856685, 7.6936490451920285),
         (-0.1, 0.3192697627705675, 7.403866128777773),
         (-0.05, 0.4003225966274304, 7.258776448666309),
         (0.0, 0.4695999888844369, 7.14513231841832),
         (0.1, 0.5870352185207904, 7.009229754133241),
         (0.2, 0.6867081787275461, 6.749329342501305),
         (0.4, 0.8544212308007874, 6.527240295299643),
         (0.6, 0.9958364401142359, 6.346215258827898),
         (0.8, 1.1202676569110326, 6.196632122649292),
         (1.0, 1.232587656425026, 6.067274747911803),
         (1.2, 1.3357214743732817, 5.954426352228788),
         (1.5, 1.4772240836746222, 5.856047840074591),
         (1.8, 1.606480104341687, 5.945054396405168),
         (2.0, 1.6872181688524206, 5.667009755978152)]
ASK = ["f", "f_p", "f_pp", "tau_w", "dissipation", "eta", "u", "v", "u_e",
       "v_e", "delta_d", "delta_m", "delta_k", "delta_s", "shape_d",
       "shape_k", "eta_d", "eta_m", "eta_k", "eta_s", "fw_pp", "eta_inf"]
BUDGET = 60_000_000
RHO = 1.3
XS = [0.25, 1.0, 1.7]
ETAS = [0.0, 0.1, 0.35, 0.7, 1.0]


def num(v):
    """Read a number of a plan (JSON has no NaN)."""
    if isinstance(v, str) and v in ("nan", "inf", "-inf"):
        return float(v)
    return v


class Sim:
    """A similarity solution of the simulated user."""

    def __init__(self, world):
        self.world = world
        self.obj = None
        self.kind = None

    def create(self, args):
        """args: kind, u, nu, fw, eta and (for FS) beta."""
        from ibl.analytic import Blasius, FalknerSkan
        self.kind = args["kind"]
        kw = {"u_ref": num(args["u"]), "nu_ref": num(args["nu"])}
        if args.get("fw") is not None:
            kw["fw_pp"] = num(args["fw"])
        if args.get("eta") is not None:
            kw["eta_inf"] = num(args["eta"])

        def act():
            if self.kind == "B":
                return Blasius(**kw)
            return FalknerSkan(num(args["beta"]), **kw)
        res = bl.guard(self.world, act, budget=BUDGET)
        if res[0] == "ok":
            self.obj = res[1]
            return ("ok", None)
        return res

    def act(self, op):
        """Carry out one operation of a plan."""
        o = self.obj
        kw = {}
        if op.get("fw") is not None:
            kw["fw_pp"] = num(op["fw"])
        if op.get("eta") is not None:
            kw["eta_inf"] = num(op["eta"])

        def act():
            if op["do"] == "params":
                o.set_solution_parameters(**kw)
            elif op["do"] == "beta":
                o.reset_beta(num(op["val"]), **kw)
            elif op["do"] == "m":
                o.reset_m(num(op["val"]), **kw)
            elif op["do"] == "u_ref":
                o.u_ref = num(op["val"])
            elif op["do"] == "nu_ref":
                o.nu_ref = num(op["val"])
            elif op["do"] == "poke":
                self.poke()
            else:
                raise KeyError(op["do"])
        res = bl.guard(self.world, act, budget=BUDGET)
        return res if res[0] == "exc" else ("ok", None)

    def poke(self):
        """Change every array that the object hands out."""
        o = self.obj
        eta = np.array(ETAS)*o.eta_inf
        x = np.array(XS)
        for fn, args in ((o.f, (eta,)), (o.f_p, (eta,)), (o.f_pp, (eta,)),
                         (o.u_e, (x,)), (o.v_e, (x,)), (o.delta_d, (x,)),
                         (o.delta_m, (x,)), (o.delta_k, (x,)),
                         (o.delta_s, (x,)), (o.shape_d, (x,)),
                         (o.shape_k, (x,)), (o.eta, (x, x*1e-3))):
            res = bl.guard(self.world, fn, *args, budget=BUDGET)
            if res[0] != "ok":
                continue        # no finite exponent for a wedge parameter 2
            val = res[1]
            if isinstance(val, np.ndarray) and val.flags.writeable:
                val[...] = -7.0

    def ask(self, what, where=0):
        """Ask one question about one of several sets of places."""
        o = self.obj

        def act():
            eta = np.array(ETAS)*o.eta_inf
            x = np.array(XS)
            if where:
                eta = eta[:-(where % 2) or None]*(1 - 0.13*where)
                x = x[:-(where % 2) or None]*(1 + 0.31*where)
            args = {"f": (eta,), "f_p": (eta,), "f_pp": (eta,),
                    "tau_w": (x, RHO), "dissipation": (x, RHO),
                    "eta": (x, 0.01*x), "u": (x, 0.01*x),
                    "v": (x, 0.01*x)}.get(what, (x,))
            got = getattr(o, what)
            return bl.plain(got(*args) if callable(got) else got)
        return bl.guard(self.world, act, budget=BUDGET)

    def observe(self):
        """Return all that the object reports."""
        o = self.obj
        out = {}

        def ask(name, fn):
            res = bl.guard(self.world, lambda: bl.plain(fn()), budget=BUDGET)
            out[name] = list(res[:2])
        names = ["u_ref", "nu_ref", "fw_pp", "eta_inf", "eta_d", "eta_m",
                 "eta_k", "eta_s"]
        if self.kind == "FS":
            names += ["beta", "m"]
        else:
            names += ["fw_pp_default", "eta_inf_default"]
        for n in names:
            ask(n, lambda n=n: getattr(o, n))
        lim = out["eta_inf"][1][1][0] if out["eta_inf"][0] == "ok" else 1.0
        eta = np.array(ETAS)*lim
        x = np.array(XS)
        for n in ("f", "f_p", "f_pp"):
            ask(n, lambda n=n: getattr(o, n)(eta))
            ask(n + " scalar", lambda n=n: getattr(o, n)(float(eta[2])))
        for n in ("u_e", "v_e", "delta_d", "delta_m", "delta_k", "delta_s",
                  "shape_d", "shape_k"):
            ask(n, lambda n=n: getattr(o, n)(x))
            ask(n + " scalar", lambda n=n: getattr(o, n)(1.3))
        for n in ("tau_w", "dissipation"):
            ask(n, lambda n=n: getattr(o, n)(x, RHO))
        y = np.array([0.0, 0.3, 0.8])
        d = out["delta_d"]
        if d[0] == "ok":
            y = y*abs(d[1][1][1])
        for n in ("eta", "u", "v"):
            ask(n, lambda n=n: getattr(o, n)(x, y))
        return out


def same(a, b, rtol=1e-9):
    """Describe the first difference of two observations, or None."""
    return bl.differ(a, b, rtol, 1e-14)
