"""Shared scaffolding of the properties decided by the call machine."""
import os

from ..core import HarnessError, Prop, Violation
from .. import farm
from .. import calls as K

STUB = [
    "numba: kernels are interpreted from their own source by the simulator; parallel loops run on simulated worker threads under the seeded scheduler",
    "caller threads: real Python threads serialised by the seeded scheduler, preempted at line or bytecode boundaries of the package",
]


class CallProp(Prop):
    tags = set()
    ops_modules = ()
    ncalls = (2, 7)
    p_group = 0.3
    p_fault = 0.15
    kinds = ()
    nobjs = (1, 2)
    stub = STUB
    sim_time = "logical: simulated steps are scheduler steps; the code has no clock"
    rule = "a run counts when a parallel region or a group of concurrent callers was scheduled with at least one preemption, or a fault was injected"
    measure = "digest of the sequence of operations plus the interleaving signature (which worker was preempted where) of every parallel region and caller group"

    def setup(self):
        from ..load import load
        import importlib

        load()
        for m in self.ops_modules:
            importlib.import_module("dst." + m)

    def gen(self, rng, i, tier):
        return K.gen_case(rng, self.tags, self.ncalls, self.p_group, self.p_fault, self.kinds, self.nobjs)

    def run(self, case, ctx):
        K.Calls(case, ctx).run()
        ctx.nontrivial = bool(ctx.counts.get("preemptions") or ctx.faults)

    def shrink(self, case):
        return K.shrink_case(case)


class HashProp(CallProp):
    """Runs spread over interpreters with different hash seeds."""

    hashes = 8

    def gen(self, rng, i, tier):
        case = super().gen(rng, i, tier)
        seed = int(os.environ.get("VERIF_SEED") or 1)
        case["hash"] = (seed * 1000 + i % self.hashes + self.hashes * (i // 8000)) % 4294967296
        return case

    def run(self, case, ctx):
        h = case.get("hash")
        if h is None or str(h) == os.environ.get("PYTHONHASHSEED"):
            return super().run(case, ctx)
        r = farm.run(self.pid, h, case)
        if r["err"]:
            raise HarnessError(r["err"])
        ctx.counts.update(r["counts"])
        ctx.faults.update(r["faults"])
        ctx.probe("runs_under_another_hash_seed")
        ctx.steps += r["steps"]
        ctx.sig += r["sig"] + [h]
        ctx.log += [tuple([x]) for x in r["log"]]
        ctx.nontrivial = r["nontrivial"]
        if r["v"]:
            raise Violation(*r["v"])

    def shrink(self, case):
        if case.get("hash"):
            yield {**case, "hash": 0}
        yield from K.shrink_case(case)
