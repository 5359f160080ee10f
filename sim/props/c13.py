"""C13: a failed load leaves no data behind and harms nothing else."""
from sim import loads
from sim.props import c11


class C13(c11.C11):
    ID = "C13"
    QUICK = 3400
    KINDS = ["dump", "case"]
    WHAT = "after"
    RULE = ("A run is a history of 3-20 loads on 1-4 readers of both kinds "
            "with damaged and replaced files and errors of the file system. "
            "After every load that failed its reader must report what an "
            "empty one does, every other reader what it reported before, and "
            "a load without file system error must do what it does on a new "
            "reader. Non-trivial: a load failed and one succeeded. Distinct "
            "by history digest.")
    ASSUME = []

    def gen(self, rng, idx, tier):
        return loads.gen_plan(rng, rng.choice([["dump"], ["case"],
                                               ["dump", "case"]]),
                              rng.choice([1, 2, 3, 4]),
                              rng.choice([3, 8, 14, 20]), p_err=0.35)

    def run(self, plan, ctx):
        super().run(plan, ctx)


PROP = C13()
