"""Base class of all checks."""


class Prop:
    """One property: how its runs are generated, executed and judged."""

    ID = ""
    QUICK = 100           # runs in each tier
    THOROUGH = 1000
    LEVEL = "exploration"
    RULE = ""
    REAL = []             # components which ran real code
    STUB = []             # components which ran a stand-in
    ASSUME = []

    def gen(self, rng, idx, tier):
        """Return plan (JSON data) of run idx."""
        raise NotImplementedError

    def run(self, plan, ctx):
        """Execute plan; raise Violation if the property does not hold."""
        raise NotImplementedError

    def lists(self, plan):
        """Paths of the lists in plan from which entries can be dropped."""
        return [["ops"]] if "ops" in plan else []

    def simpler(self, _plan):
        """Return functions which make a copy of plan simpler."""
        return []
