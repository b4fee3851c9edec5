"""C03: copies and derived tensors/frames are right and independent."""
from .. import frame_machine as M
from ._fr import FrProp


class C03(FrProp):
    pid = "C03"
    runs = {"quick": 5000, "thorough": 150000}
    kinds = {"wrong-result", "not-isolated", "not-objective", "show-mismatch", "wrong-frame", "frame-changed", "stale-view",
             "unexpected-error", "caller-data-changed"}
    rule = "a run counts when at least one copy or derived object was made and something was changed afterwards"

    def gen(self, rng, i, tier):
        heavy = rng.random() < 0.05
        ops, n = M.gen_setup(rng, heavy)
        for _ in range(rng.randint(3, 12)):
            r = rng.random()
            if r < 0.5:
                ops.append(M.g_derive(rng))
            elif r < 0.7:
                ops.append(M.g_change(rng))
            elif r < 0.88:
                ops.append(M.g_tensor_op(rng))
            elif r < 0.90:
                ops.append(["fprops", rng.randrange(9), rng.randrange(70)])
            elif r < 0.94:
                ops.append(["drop", rng.randrange(9)])
            else:
                ops.append(["scribble", rng.randrange(12)])
        return {"ops": ops, "par": M.g_par(rng)}

    def finish(self, case, ctx, w):
        made = sum(ctx.counts.get("op_" + k, 0) for k in ("copy", "derive", "product", "fcopy"))
        ctx.nontrivial = made > 0


PROP = C03()
