"""Shared scaffolding of the frame and tensor properties."""
from ..core import Prop
from .. import frame_machine as M

REAL = ["sigmaepsilon.math.linalg frame / meta / abstract / vector / tensor / tr / utils / logical (unmodified, from /repo/src)"]
STUB = [
    "numba: kernels are interpreted from their own source by the simulator; parallel loops run on simulated threads",
    "np.linalg.inv and np.einsum: real, behind a seam that can fail a chosen call",
    "garbage collection: the simulator decides when the last reference to an object goes away",
]


class FrProp(Prop):
    kinds = set()
    real = REAL
    stub = STUB
    sim_time = "logical: simulated steps are scheduler steps of the parallel kernels; the code has no clock"
    measure = "digest of the sequence of operations with outcomes plus the interleaving signatures of the parallel regions"
    assumptions = [
        "frames stay well conditioned (singular values between 0.05 and 40, condition at most 40); relative tolerance 1e-6",
        "axes given to rectangular/cartesian frames are rectangular/orthonormal, as their documentation requires",
        "frames and tensors are used by one thread; parallelism is inside the kernels",
    ]

    def setup(self):
        from ..load import load

        load()

    def run(self, case, ctx):
        w = M.World(case, ctx, self.kinds)
        w.run()
        self.finish(case, ctx, w)

    def finish(self, case, ctx, w):
        ctx.nontrivial = ctx.counts.get("tensors_carried", 0) > 0

    def shrink(self, case):
        return M.shrink_case(case)
