"""C13: linear systems and inverses."""
from ._calls import CallProp


class C13(CallProp):
    pid = "C13"
    tags = {"solve"}
    ops_modules = ("ops_solve",)
    p_fault = 0.2
    runs = {"quick": 2500, "thorough": 80000}
    real = ["sigmaepsilon.math.linalg.solve and the inverse / product helpers of linalg.utils (unmodified, from /repo/src); numpy's LAPACK"]
    assumptions = [
        "regular systems are diagonally dominant (the eliminations do not pivot); singular ones are exactly singular",
    ]


PROP = C13()
