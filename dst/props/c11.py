"""C11: symbolic functions and relations."""
from ._calls import HashProp


class C11(HashProp):
    pid = "C11"
    tags = {"func"}
    ops_modules = ("ops_func",)
    kinds = ("func",)
    nobjs = (1, 2)
    ncalls = (2, 7)
    p_group = 0.3
    p_fault = 0.2
    runs = {"quick": 600, "thorough": 20000}
    real = ["sigmaepsilon.math.function (unmodified, from /repo/src); sympy"]
    assumptions = [
        "expressions are polynomials of up to four variables (rational, float and irrational coefficients) and sin, exp or the square of one",
        "numeric values are substituted (no symbolic ones); variable names are plain identifiers",
    ]


PROP = C11()
