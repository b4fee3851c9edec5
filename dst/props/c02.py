"""C02: a change of a frame or tensor that fails changes nothing."""
from .. import frame_machine as M
from ._fr import FrProp


class C02(FrProp):
    pid = "C02"
    runs = {"quick": 5000, "thorough": 150000}
    kinds = {"half-updated", "not-objective", "wrong-frame", "frame-changed", "show-mismatch", "misuse-accepted"}
    rule = "a run counts when at least one operation on a frame or tensor failed (injected or refused) and the world was compared before and after"

    def gen(self, rng, i, tier):
        heavy = rng.random() < 0.05
        ops, n = M.gen_setup(rng, heavy)
        for _ in range(rng.randint(2, 10)):
            fault = rng.choice([None, 1, 1, 2, 3, 4, 5, rng.randint(1, 25)])
            r = rng.random()
            if r < 0.4:
                ops.append(M.g_change(rng, fault))
            elif r < 0.55:
                ops.append(M.g_tensor_op(rng, fault))
            elif r < 0.65:
                ops.append(M.g_derive(rng, fault))
            elif r < 0.9:
                ops.append(["misuse", rng.randrange(9), rng.randrange(9), rng.choice(M.MISUSE), rng.randrange(10**6)])
            elif r < 0.95:
                ops.append(M.g_tensor(rng, heavy, n))
            else:
                ops.append(["drop", rng.randrange(9)])
        for k in range(3):  # afterwards everything must still work
            ops.append(["axes", k, M.g_spec(rng), "C", None, None])
        return {"ops": ops, "par": None}

    def finish(self, case, ctx, w):
        ctx.nontrivial = w.failed > 0


PROP = C02()
