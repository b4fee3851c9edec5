"""C01: tensors are objective - no history of frame changes alters them."""
from .. import frame_machine as M
from ._fr import FrProp


class C01(FrProp):
    pid = "C01"
    runs = {"quick": 5000, "thorough": 150000}
    kinds = {"not-objective", "show-mismatch", "wrong-frame", "frame-changed", "frame-type", "dcm-mismatch", "dual-mismatch",
             "gram-mismatch", "stale-view", "unexpected-error", "caller-data-changed", "wrong-result"}
    rule = "a run counts when at least one in-place change of a frame carried at least one registered tensor"

    def gen(self, rng, i, tier):
        heavy = rng.random() < 0.08
        ops, n = M.gen_setup(rng, heavy)
        for _ in range(rng.randint(3, 14)):
            r = rng.random()
            if r < 0.5:
                die = [rng.randint(1, 60), rng.randrange(9)] if rng.random() < 0.2 else None
                ops.append(M.g_change(rng, None, die))
            elif r < 0.75:
                ops.append(M.g_tensor_op(rng))
            elif r < 0.83:
                ops.append(rng.choice([["show", rng.randrange(9), rng.randrange(9), rng.randrange(3)], ["fshow", rng.randrange(9), rng.randrange(9)],
                                       ["fprops", rng.randrange(9), rng.randrange(70)], rng.choice([["metric", rng.randrange(9)], ["fname", rng.randrange(9), rng.choice("abc")]]),
                                       ["close", rng.randrange(9), rng.randrange(9), rng.random() < 0.7, rng.random() < 0.7]]))
            elif r < 0.88:
                ops.append(M.g_tensor(rng, heavy, n))
            elif r < 0.93:
                ops.append(["drop", rng.randrange(9)])
            elif r < 0.96:
                ops.append(["scribble", rng.randrange(12)])
            else:
                ops.append(rng.choice([["gc"], ["dropframe", rng.randrange(9)], ["frame", "R", 3, n, M.g_spec(rng), "C"]]))
        return {"ops": ops, "par": M.g_par(rng)}


PROP = C01()
