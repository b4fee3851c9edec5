"""C12: linear programs."""
from ._calls import HashProp


class C12(HashProp):
    pid = "C12"
    tags = {"lp"}
    ops_modules = ("ops_func", "ops_lp")
    kinds = ("lp",)
    nobjs = (1, 2)
    ncalls = (2, 5)
    p_group = 0.3
    p_fault = 0.2
    runs = {"quick": 500, "thorough": 15000}
    real = ["sigmaepsilon.math.optimize.lp and sigmaepsilon.math.function (unmodified, from /repo/src); sympy; scipy's HiGHS, behind a fault seam"]
    stub = HashProp.stub + ["scipy.optimize.linprog: passes through to the real solver, or gives up the way a solver does (limit reached, numerical trouble, incumbent at a time limit, out of memory)"]
    assumptions = [
        "linear objective and constraints over the same declared variables; up to four variables and four constraints",
        "strict inequalities are compared as non-strict ones (a solver cannot distinguish them)",
    ]


PROP = C12()
