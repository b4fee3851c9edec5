"""C15: quadrature rules, Lagrange interpolation, nearest neighbours."""
from ._calls import CallProp


class C15(CallProp):
    pid = "C15"
    tags = {"numeric"}
    ops_modules = ("ops_numeric",)
    ncalls = (2, 6)
    p_group = 0.45
    runs = {"quick": 1500, "thorough": 40000}
    real = ["sigmaepsilon.math.numint, approx.lagrange and knn (unmodified, from /repo/src); scipy's KD tree and sympy"]
    assumptions = ["interpolation nodes at least 0.35 apart, at most four of them", "points in general position (no two neighbours at the same distance)"]


PROP = C15()
