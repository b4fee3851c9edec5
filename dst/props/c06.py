"""C06: objective faults are reported faithfully and recovery works."""
from ._ga import GAProp, gen_case


class C06(GAProp):
    pid = "C06"
    runs = {"quick": 6000, "thorough": 200000}
    kinds = {"fault-swallowed", "error-type", "error-cause", "status", "success-flag", "message", "recovery",
             "no-progress", "champion-not-best", "champion-missing", "champion-without-evaluation", "evaluation-count",
             "iteration-count", "champion-age", "unexpected-error", "history-leaks-into-fresh-solve",
             "population-shape", "population-genes", "generation-count"}
    rule = "a run counts when at least one objective fault actually fired inside a call of the optimiser"

    def gen(self, rng, i, tier):
        c = gen_case(rng, faults=(1, 1, 2, 3, 5), n_inst=(1, 1, 2), heal=True)
        if rng.random() < 0.2:
            c["ops"].insert(rng.randint(0, len(c["ops"])), [rng.randrange(len(c["insts"])), "seedpop", rng.randrange(10**6)])
        c["ops"].append([rng.randrange(len(c["insts"])), "heal"])
        if rng.random() < 0.6:
            c["ops"].append([rng.randrange(len(c["insts"])), "fresh", rng.randrange(2**31)])
        return c

    def finish(self, case, ctx, m):
        ctx.nontrivial = any(k.startswith("objective_") for k in ctx.faults)


PROP = C06()
