"""C04: the champion is the best candidate ever evaluated since the last reset."""
from ._ga import GAProp, gen_case


class C04(GAProp):
    pid = "C04"
    runs = {"quick": 6000, "thorough": 200000}
    kinds = {"champion-without-evaluation", "champion-missing", "champion-not-best", "champion-wrong-point",
             "champion-genotype-mismatch", "state-out-of-step", "solve-result", "best-candidate"}
    rule = ("a run counts when the optimiser evaluated at least one generation and the reported best was "
            "compared with every objective value the simulator handed out")

    def gen(self, rng, i, tier):
        return gen_case(rng)


PROP = C04()
