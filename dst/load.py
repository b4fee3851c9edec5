"""Imports the package under test from /repo's working tree, inside the
simulator: numba is replaced by the interpreter in simnumba before the import,
and the numpy routines the code can fail in are wrapped by fault seams."""
import os
import sys
import warnings

REPO = os.environ.get("DST_REPO", "/repo")
SRC = os.path.join(REPO, "src")

_loaded = None


def load():
    global _loaded
    if _loaded is not None:
        return _loaded
    sys.dont_write_bytecode = True
    warnings.simplefilter("ignore")
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    import numpy as np
    import awkward  # noqa: F401  (before numba is replaced)
    import scipy.optimize
    import sympy

    np.seterr(all="ignore")
    from . import sched, simnumba

    sched.PKG_MARK = os.path.join(SRC, "sigmaepsilon", "math")
    sched.install_locks()
    sched.warm_opcode_events()
    simnumba.install()

    # -- fault seams in numpy/scipy: installed before the package binds names
    real_inv = np.linalg.inv
    real_einsum = np.einsum

    def inv(a):
        simnumba.kernel_event("np.linalg.inv")
        return real_inv(a)

    def einsum(*a, **k):
        simnumba.kernel_event("np.einsum")
        return real_einsum(*a, **k)

    np.linalg.inv = inv
    np.einsum = einsum

    real_lambdify = sympy.lambdify

    def lambdify(*a, **k):
        simnumba.kernel_event("sympy.lambdify")
        return real_lambdify(*a, **k)

    sympy.lambdify = lambdify

    # sympy's simplification is a pure function and most of the running time of
    # the symbolic properties: remembered by the full form of the expression
    real_simplify = sympy.Basic.simplify
    known = {}

    def simplify(self, **kw):
        if kw:
            return real_simplify(self, **kw)
        key = sympy.srepr(self)
        out = known.get(key)
        if out is None:
            if len(known) > 20000:
                known.clear()
            out = known[key] = real_simplify(self)
        return out

    sympy.Basic.simplify = simplify

    scipy_linprog = scipy.optimize.linprog

    def real_linprog(c, *a, **k):
        """scipy's solver, except that a fractional value for a variable it was
        told is an integer (a HiGHS presolve defect) is solved for again."""
        res = scipy_linprog(c, *a, **k)
        kinds = k.get("integrality")
        if kinds is not None and res.x is not None:
            kinds = np.broadcast_to(np.asarray(kinds), np.shape(res.x))
            if np.any((kinds == 1) & (np.abs(res.x - np.round(res.x)) > 1e-5)):
                k = {**k, "options": {**(k.get("options") or {}), "presolve": False}}
                res = scipy_linprog(c, *a, **k)
        return res

    def linprog(c, *a, **k):
        """The LP solver behind a seam: an option asks for one of the ways a
        real solver gives up."""
        simnumba.kernel_event("scipy.optimize.linprog")
        opts = dict(k.get("options") or {})
        how = opts.pop("dst_fault", None)
        if how is not None:
            simnumba.RT.solver_faults = getattr(simnumba.RT, "solver_faults", 0) + 1
            if how == "raise":
                raise MemoryError("injected: solver out of memory")
            if how == "incumbent":  # best point found before the time ran out
                k["options"] = opts
                res = real_linprog(np.zeros_like(np.asarray(c, dtype=float)), *a, **k)
                res.status, res.success, res.message = 1, False, "injected: time limit reached"
                return res
            status = {"limit": 1, "numerical": 4}[how]
            return scipy.optimize.OptimizeResult(
                x=None, fun=None, slack=None, con=None, status=status, success=False, nit=7, message="injected: " + how,
            )
        if "options" in k:
            k["options"] = opts
        return real_linprog(c, *a, **k)

    scipy.optimize.linprog = linprog
    load.real_linprog = real_linprog

    import sigmaepsilon

    pkg_dir = os.path.join(SRC, "sigmaepsilon")
    path = list(sigmaepsilon.__path__)
    if pkg_dir not in path:
        sigmaepsilon.__path__.insert(0, pkg_dir)
    elif path[0] != pkg_dir:
        path.remove(pkg_dir)
        try:
            sigmaepsilon.__path__[:] = [pkg_dir] + path
        except TypeError:
            pass
    import sigmaepsilon.math as m

    f = os.path.realpath(m.__file__)
    if not f.startswith(os.path.realpath(SRC) + os.sep):
        raise RuntimeError(f"package under test was imported from {f}, not {SRC}")
    # every module now: nothing is imported lazily by a simulated thread
    import importlib
    import pkgutil

    for info in pkgutil.walk_packages(m.__path__, m.__name__ + "."):
        try:
            importlib.import_module(info.name)
        except Exception:  # optional dependencies
            pass
    _loaded = m
    return m
