"""C14: jagged arrays, CSR matrices and graphs."""
from ._calls import CallProp


class C14(CallProp):
    pid = "C14"
    tags = {"sparse"}
    ops_modules = ("ops_sparse",)
    kinds = ("jagged", "jagged", "csr", "graph", "graph")
    nobjs = (1, 3)
    ncalls = (3, 9)
    runs = {"quick": 2500, "thorough": 80000}
    real = ["sigmaepsilon.math.linalg.sparse, arraysetops and graph (unmodified, from /repo/src); awkward, scipy.sparse, networkx"]
    assumptions = ["integer data; at least one row and one element", "item assignment only where the stored array is dense"]


PROP = C14()
