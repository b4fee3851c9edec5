"""C10: approximations over point clouds, shared by callers."""
from ._calls import CallProp


class C10(CallProp):
    pid = "C10"
    tags = {"approx"}
    ops_modules = ("ops_approx",)
    kinds = ("approximator", "approximator", "weight", "fit", "movingfit")
    nobjs = (1, 3)
    p_group = 0.45
    runs = {"quick": 2000, "thorough": 60000}
    real = ["sigmaepsilon.math.approx (MLSApproximator, least squares family, weight functions) and knn, unmodified, from /repo/src; scipy's KDTree"]
    assumptions = [
        "point clouds in general position: no ties between neighbour distances, normal matrices well conditioned",
        "the caller does not overwrite the arrays of an approximator or of a moving fit behind its back (plain fits: it does)",
        "derivatives are compared for the constant and cubic weights only; the singular weight documents none",
    ]


PROP = C10()
