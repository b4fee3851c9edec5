"""C05: iteration / evaluation accounting and termination follow the documented rule."""
from ._ga import GAProp, gen_case


class C05(GAProp):
    pid = "C05"
    runs = {"quick": 6000, "thorough": 200000}
    kinds = {"iteration-count", "evaluation-count", "status", "success-flag", "scipy-view", "ran-on",
             "stopped-early", "generation-count", "champion-age", "no-progress", "evaluate-result", "unexpected-error",
             "invalid-accepted", "rejected-params-applied"}
    rule = ("a run counts when the optimiser evaluated at least one generation and its counters, status and "
            "stopping point were compared with the reference model after every call")

    def gen(self, rng, i, tier):
        return gen_case(rng, faults=(0, 0, 0, 0, 1, 2))


PROP = C05()
