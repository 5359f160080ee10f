"""C14: loading closes every file on every path and writes nothing."""
from sim import loads
from sim.props import c11


class C14(c11.C11):
    ID = "C14"
    QUICK = 5000
    KINDS = ["dump", "case"]
    WHAT = "handles"
    RULE = ("A run is a history of 3-14 loads on readers of both kinds with "
            "damaged and replaced files and errors of the file system at "
            "opening, at every read, while decoding, while parsing and at "
            "closing. After every load each stream that it opened (all are "
            "kept alive by the harness) must be closed, and no attempt to "
            "open for writing or to change the file system may have been "
            "made. Non-trivial: a load failed and one succeeded. Distinct by "
            "history digest.")
    ASSUME = []

    def gen(self, rng, idx, tier):
        return loads.gen_plan(rng, ["dump", "case"], rng.choice([1, 2, 3]),
                              rng.choice([3, 6, 10, 14]), p_err=0.5)


PROP = C14()
