"""C11: an XFOIL dump loads completely and exactly, or fails."""
from sim import disk, loads
from sim.prop import Prop


class C11(Prop):
    ID = "C11"
    QUICK = 5000
    THOROUGH = 200000
    KINDS = ["dump"]
    WHAT = "content"
    RULE = ("A run is a history of 3-14 loads on 1-3 readers of generated "
            "files (and those of the test suite), intact or damaged (torn, "
            "bits flipped, bytes or lines lost, repeated, exchanged, zeroed, "
            "single values spoiled), delivered in drawn portions, with errors "
            "at any read, at opening, closing and looking up, and replaced "
            "by other versions between loads; every load is compared with an "
            "independent reading of the delivered bytes. Non-trivial: at "
            "least one load succeeded and one failed, or portions were "
            "short. Distinct by history digest.")
    STATES = ("distinct (kind of file, outcome, meaning of the contents, "
              "faults that fired, way of loading)")
    REAL = ["ibl.reference (readers and station data)",
            "io.BufferedReader and io.TextIOWrapper of Python",
            "pathlib and importlib.resources"]
    STUB = ["raw file (sim.disk)", "os.stat of the files of the run"]
    ASSUME = ["a blank line, a comment, a lone carriage return or characters "
              "outside ASCII make no claim on whether the file must load",
              "values that only the package's own range checks refuse (a "
              "negative skin friction, say) may be refused",
              "the chord location of the stagnation point is accepted as "
              "interpolated with or without the sign of the test suite's "
              "pinned value"]

    def gen(self, rng, idx, tier):
        return loads.gen_plan(rng, self.KINDS, rng.choice([1, 1, 2, 3]),
                              rng.choice([3, 6, 10, 14]))

    def run(self, plan, ctx):
        got = disk.scratch(lambda root: ctx.world(
            "subject", loads.subject, plan, root, self.WHAT))
        ctx.nontrivial = got["ok"] > 0 and got["exc"] > 0 or any(
            o.get("opens") and o["opens"][0].get("chunks")
            for o in plan["ops"])

    def lists(self, plan):
        return loads.lists(plan)

    def simpler(self, plan):
        return loads.simpler(plan)


PROP = C11()
