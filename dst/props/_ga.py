"""Shared scaffolding of the genetic-algorithm properties."""
from ..core import Prop
from .. import ga_machine as G

REAL = [
    "sigmaepsilon.math.optimize.ga / bga / state (the optimiser, unmodified, imported from /repo/src)",
    "sigmaepsilon.math.function.Function (symbolic objectives)",
]
STUB = [
    "objective function: simulated, owned by the simulator (values, failures, garbage values, re-entrant use)",
    "numpy's global random generator: seeded, optionally steered to the ends of its range",
    "numba: replaced by the simulator's interpreter (not on this path)",
]


class GAProp(Prop):
    kinds = set()
    real = REAL
    stub = STUB
    sim_time = "logical: one simulated step = one objective evaluation; the code has no clock"
    measure = ("digest of the sequence of calls with, per call, outcome (ok / failed by fault), "
               "generations run and whether the champion changed")
    assumptions = [
        "the objective returns a number, raises, or returns something that is not a number; NaN is excluded",
        "the direction (minimise/maximise) of an instance is fixed at construction",
        "a single thread uses an instance; re-entrancy happens through objectives that use other instances",
    ]

    def setup(self):
        from ..load import load

        load()

    def run(self, case, ctx):
        m = G.Machine(case, ctx, self.kinds)
        m.run()
        self.finish(case, ctx, m)
        ctx.sig = [e for e in ctx.log]

    def finish(self, case, ctx, m):
        ctx.nontrivial = sum(i.n_calls for i in m.insts) > 0

    def shrink(self, case):
        return G.shrink_case(case)


def gen_case(rng, faults=(0, 0, 0, 1, 2, 4), n_inst=(1, 1, 1, 2, 3), n_ops=(1, 7), heal=False, stationary=False):
    k = rng.choice(n_inst)
    insts = [G.gen_inst(rng, rng.choice(faults), stationary) for _ in range(k)]
    if k > 1 and rng.random() < 0.5:
        for a, sp in enumerate(insts):
            if rng.random() < 0.6:
                b = rng.choice([x for x in range(k) if x != a])
                sp["nest"] = sorted([[rng.randint(1, 5 * sp["nPop"]), b] for _ in range(rng.randint(1, 3))])
    return {
        "seed": rng.randrange(2**31),
        "rng": rng.choice(["plain", "plain", "extreme"]),
        "insts": insts,
        "ops": G.gen_ops(rng, rng.randint(*n_ops), k, heal=heal),
    }
