"""C23: a Stanford case that contradicts itself is refused, no other is."""
from sim import files, loads
from sim.props import c11


class C23(c11.C11):
    ID = "C23"
    KINDS = ["case"]
    WHAT = "agree"
    RULE = ("A run is a history of 3-14 loads on 1-3 readers of generated and "
            "shipped cases in which single numbers of the summary, of the "
            "station summaries or of the samples - of any station and "
            "sample, the first and the last more often - are set 0.5 to 100 "
            "tolerances off what the others give, or scaled, with what "
            "follows from them mended or not, delivered in drawn portions, "
            "with errors of the file system on other loads, and replaced by "
            "other versions between loads; the verdict of every undisturbed "
            "load is compared with the differences computed independently "
            "from the delivered text. Non-trivial: a contradiction and a "
            "consistent case were loaded. Distinct by history digest.")
    STATES = ("distinct (outcome, meaning, faults, way of loading, worst "
              "difference in tolerances)")
    ASSUME = ["the tolerances are those of the statement; a difference "
              "within 0.01 % of its tolerance may go either way",
              "a case with other damage may be refused although it is "
              "consistent"]

    def gen(self, rng, idx, tier):
        plan = loads.gen_plan(rng, self.KINDS, rng.choice([1, 1, 2, 3]),
                              rng.choice([3, 6, 10, 14]), p_err=0.12,
                              p_damage=0.0, p_poke=0.08)
        for f in plan["files"]:
            for v in f["versions"]:
                if not v:
                    continue
                spec = v["spec"]
                if spec["kind"] == "case" and spec["blocks"] < 4 \
                        and rng.random() < 0.8:
                    spec["blocks"] = rng.choice([4, 5, 5])
                if rng.random() < 0.75:
                    v["damage"] = [files.gen_contradiction(
                        rng, f["case"][0] == "1")
                        for _ in range(rng.choice([1, 1, 1, 2, 4]))]
        return plan


PROP = C23()
