"""C08: bulk linear algebra is schedule independent and right item by item."""
from ._calls import CallProp


class C08(CallProp):
    pid = "C08"
    tags = {"linalg"}
    ops_modules = ("ops_linalg",)
    runs = {"quick": 2500, "thorough": 60000}
    real = ["sigmaepsilon.math.linalg utils / tr / tensor / vector / frame (unmodified, from /repo/src)"]
    assumptions = [
        "floating point input arrays with matching dtypes, as the functions document; matrices are well conditioned",
        "the interpreter follows numba's documented parallel-loop semantics (private scalars, shared arrays, reductions)",
    ]


PROP = C08()
