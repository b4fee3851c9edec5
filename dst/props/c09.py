"""C09: array utilities are schedule independent and right element by element."""
from ._calls import CallProp


class C09(CallProp):
    pid = "C09"
    tags = {"array"}
    ops_modules = ("ops_array",)
    runs = {"quick": 2500, "thorough": 60000}
    real = ["sigmaepsilon.math utils / hist / logical (unmodified, from /repo/src)"]
    assumptions = [
        "value tables searched by find1d and find2d are unique, range mapping gets float arrays",
        "the interpreter follows numba's documented parallel-loop semantics (private scalars, shared arrays, reductions)",
    ]


PROP = C09()
