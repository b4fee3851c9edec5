"""Linear systems, inverses and small matrix helpers (C13)."""
import itertools

import numpy as np

from .calls import LAYOUTS, lay, mats, op, rs, size1

T = {"solve"}


def SV():
    import sigmaepsilon.math.linalg.solve as m

    return m


def U():
    import sigmaepsilon.math.linalg.utils as m

    return m


def system(p):
    """A, B, prescribed flags/values of a random (or singular) system."""
    r = rs(p)
    n = p["n"]
    if p.get("int"):
        A = r.randint(-3, 4, (n, n)) + 4 * n * np.eye(n, dtype=int)
        B = r.randint(-9, 10, (n, p["rhs"]) if p["rhs"] else (n,))
    else:
        A = r.uniform(-1, 1, (n, n)) + n * np.eye(n)
        B = r.uniform(-5, 5, (n, p["rhs"]) if p["rhs"] else (n,))
    if p.get("zeros"):
        A = A * (r.uniform(0, 1, (n, n)) < 0.5) + np.diag(np.diag(A)) * 1
    if p.get("sing"):
        j = int(r.randint(n))
        if r.randint(2) or n == 1 or p.get("pre") or p.get("meth") == "numpy":
            A[j] = 0
            A[:, j] = 0
        else:
            A[j] = A[(j + 1) % n]
        if p.get("int") is None:
            A = A.astype(float)
    if p.get("scale") and not p.get("int"):
        # equations in units of very different size: the same solution
        d = 2.0 ** r.randint(-8, 9, n)
        A = d[:, None] * A
        B = d[:, None] * B if B.ndim > 1 else d * B
    pb = pv = None
    if p.get("pre"):
        pb = r.uniform(0, 1, n) < p["pre"]
        pv = np.where(pb, r.uniform(-3, 3, n), 0.0)
    return A, B, pb, pv


def gen_sys(rng):
    return {
        "n": rng.choice([1, 2, 3, 4, 5, 7]), "rhs": rng.choice([0, 0, 1, 2, 3]), "int": rng.random() < 0.2 or None,
        "zeros": rng.random() < 0.2, "sing": rng.random() < 0.12, "pre": rng.choice([0, 0, 0.3, 0.5, 0.9]), "scale": rng.random() < 0.3,
        "lay": [rng.choice(LAYOUTS), rng.choice(LAYOUTS)],
    }


def ref_solve(A, B, pb, pv):
    """(X, R) by condensation, or "singular"."""
    n = len(A)
    B2 = B.reshape(n, -1).astype(float)
    A = A.astype(float)
    if pb is None:
        pb, pv, pre = np.zeros(n, bool), np.zeros(n), False
    else:
        pre = True
    X = np.zeros(B2.shape)
    X[pb] = pv[pb][:, None]
    f = ~pb
    if f.any():
        K = A[np.ix_(f, f)]
        big = np.abs(K).max(axis=1)
        if big.min() == 0 or np.linalg.matrix_rank(K / big[:, None]) < K.shape[0]:
            return "singular"
        X[f] = np.linalg.solve(K, B2[f] - A[np.ix_(f, pb)] @ X[pb])
    R = np.zeros(B2.shape)
    R[pb] = (A @ X - B2)[pb]
    return [X, R] if pre else [X]


@op("linsolve", T)
class _:
    def gen(rng):
        return {**gen_sys(rng), "meth": rng.choice(["Jordan", "Gauss-Jordan", "numpy"]), "inplace": rng.random() < 0.2}

    def make(p):
        if p["meth"] == "numpy":
            p = {**p, "pre": 0, "int": None}
        A, B, pb, pv = system(p)
        return [lay(A, p["lay"][0]), lay(B, p["lay"][1]) if B.ndim > 1 else B, pb, pv, p["meth"], p["inplace"]]

    def call(a):
        A, B, pb, pv, meth, inplace = a
        if inplace and meth != "numpy":  # in place: works on the caller's copies
            A, B = A.astype(float), B.astype(float)
        else:
            inplace = False
        kw = {} if pb is None else {"presc_bool": pb, "presc_val": pv}
        try:
            out = SV().linsolve(A, B, method=meth, inplace=inplace, **kw)
        except np.linalg.LinAlgError as e:
            if "injected" in str(e.__context__) + str(e):
                raise
            return "singular"
        out = out if isinstance(out, tuple) else (out,)
        return [np.asarray(o).reshape(len(B), -1) for o in out]

    def ref(a):
        return ref_solve(*a[:4])


@op("reduce_backsub", T)
class _:
    def gen(rng):
        return {**gen_sys(rng), "meth": rng.choice(["Jordan", "Gauss-Jordan"]), "rhs": rng.choice([1, 2, 3]), "inplace": rng.random() < 0.2}

    def make(p):
        A, B, pb, pv = system(p)
        return [lay(A, p["lay"][0]), lay(B, p["lay"][1]), pb, pv, p["meth"], p["inplace"]]

    def call(a):
        A, B, pb, pv, meth, inplace = a
        n = len(A)
        if inplace:
            A, B = A.astype(float), B.astype(float)
        kw = {"inplace": True} if inplace else {}
        args = () if pb is None else (pb, pv)
        try:
            Ar, Br = SV().reduce(A, B, *args, method=meth, **kw)
        except np.linalg.LinAlgError as e:
            if "injected" in str(e.__context__) + str(e):
                raise
            return "singular"
        if pb is None:
            X, R = SV().backsub(Ar, Br, np.zeros(n, dtype=bool), np.zeros(n))
            return [X]
        return list(SV().backsub(Ar, Br, pb, pv))

    def ref(a):
        return ref_solve(*a[:4])


@op("npsolve", T)
class _:
    def gen(rng):
        return {"n": rng.choice([1, 2, 3, 6]), "rhs": rng.choice([0, 2]), "f": rng.choice(["npsolve", "linsolve", "inv"])}

    def make(p):
        r = rs(p)
        n = p["n"]
        return [mats(r, (), n), r.uniform(-4, 4, (n, 2) if p["rhs"] else (n,)), p["f"]]

    def call(a):
        if a[2] == "inv":
            return U().inv(a[0]) @ a[1]
        return (SV().npsolve if a[2] == "npsolve" else U().linsolve)(a[0], a[1])

    def ref(a):
        return (np.linalg.pinv(a[0]) @ a[1])


@op("generalized_inverse", T)
class _:
    def gen(rng):
        return {"n": rng.randint(1, 5), "m": rng.randint(1, 5), "def": rng.random() < 0.15, "lay": rng.choice(LAYOUTS)}

    def make(p):
        r = rs(p)
        n, m = p["n"], p["m"]
        A = r.uniform(-1, 1, (n, m)) + 2 * np.eye(n, m)
        if p["def"] and min(n, m) > 1:
            if n <= m:
                A[-1] = A[0]
            else:
                A[:, -1] = A[:, 0]
        return [lay(A, p["lay"])]

    def call(a):
        from sigmaepsilon.math.linalg.exceptions import LinalgError

        try:
            return U().generalized_inverse(a[0])
        except LinalgError:
            return "none"

    def ref(a):
        if np.linalg.matrix_rank(a[0]) < min(a[0].shape):
            return "none"
        return np.linalg.pinv(a[0])


@op("one_sided_inverse", T)
class _:
    def gen(rng):
        return {"n": rng.randint(1, 4), "m": rng.randint(0, 3), "side": rng.choice(["left", "right"])}

    def make(p):
        A = rs(p).uniform(-1, 1, (p["n"] + p["m"], p["n"])) + 2 * np.eye(p["n"] + p["m"], p["n"])
        return [A if p["side"] == "left" else A.T, p["side"]]

    def call(a):
        return getattr(U(), f"generalized_{a[1]}_inverse")(a[0])

    def ref(a):
        return np.linalg.pinv(a[0])


@op("products", T)
class _:
    def gen(rng):
        return {"f": rng.choice(["matmul", "ATB", "matmulw", "ATBA", "ATBAw"]), "n": rng.randint(1, 4), "m": rng.randint(1, 4), "k": rng.randint(1, 3)}

    def make(p):
        r = rs(p)
        n, m, k = p["n"], p["m"], p["k"]
        f = p["f"]
        if f.startswith("ATBA"):
            A, B = r.uniform(-2, 2, (n, m)), r.uniform(-2, 2, (n, n))
        elif f == "ATB":
            A, B = r.uniform(-2, 2, (n, m)), r.uniform(-2, 2, (n, k))
        else:
            A, B = r.uniform(-2, 2, (n, m)), r.uniform(-2, 2, (m, k))
        return [A, B, f, float(r.uniform(0.5, 3))]

    def call(a):
        A, B, f, w = a
        g = getattr(U(), f)
        return g(A, B, w) if f.endswith("w") else g(A, B)

    def ref(a):
        A, B, f, w = a
        w = w if f.endswith("w") else 1.0
        if f.startswith("ATBA"):
            return w * np.einsum("ki,kl,lj->ij", A, B, A)
        if f == "ATB":
            return np.einsum("ki,kj->ij", A, B)
        return w * np.einsum("ik,kj->ij", A, B)


def Raxis(i, t):
    c, s = np.cos(t), np.sin(t)
    return np.array([[[1, 0, 0], [0, c, s], [0, -s, c]], [[c, 0, -s], [0, 1, 0], [s, 0, c]], [[c, s, 0], [-s, c, 0], [0, 0, 1]]][i])


@op("rotation_matrix", T, heavy=4, mutable=False)
class _:
    """Direction cosine matrix of the rotated frame seen from the original."""

    def gen(rng):
        return {"type": rng.choice(["Body", "Space"]), "ord": rng.choice(["XYZ", "ZYX", "ZXZ", "123", "YXY"])}

    def make(p):
        return [p["type"], rs(p).uniform(-3, 3, 3).tolist(), p["ord"]]

    def call(a):
        return U().rotation_matrix(a[0], a[1], a[2])

    def ref(a):
        ix = [{"X": 0, "Y": 1, "Z": 2, "1": 0, "2": 1, "3": 2}[c] for c in a[2]]
        R = [Raxis(i, t) for i, t in zip(ix, a[1])]
        return R[2] @ R[1] @ R[0] if a[0] == "Body" else R[0] @ R[1] @ R[2]


@op("symbolic_inverse", T, heavy=4, mutable=False)
class _:
    """Inverse, or determinant and adjugate, of a symbolic 3x3 matrix."""

    def gen(rng):
        return {"adj": rng.random() < 0.4, "sym": rng.random() < 0.5}

    def make(p):
        r = rs(p)
        A = r.randint(-3, 4, (3, 3)) + 9 * np.eye(3, dtype=int)
        return [A.tolist(), p["adj"], p["sym"]]

    def call(a):
        import sympy as sy

        A, adj, sym = a
        t = sy.Symbol("t")
        m = sy.Matrix(A)
        if sym:
            m[0, 1] = t
        out = U().inv_sym_3x3(m, as_adj_det=True) if adj else (U().inv_sym_3x3(m),)
        f = lambda e: sy.N(sy.sympify(e).subs(t, A[0][1]))
        return [np.array(sy.Matrix(o).applyfunc(f).tolist(), dtype=float) if hasattr(o, "shape") else float(f(o)) for o in out]

    def ref(a):
        A = np.array(a[0], dtype=float)
        inv, det = np.linalg.inv(A), float(np.linalg.det(A))
        return [det, inv * det] if a[1] else [inv]


@op("solver_misuse", T, mutable=False)
class _:
    """Requests a solver cannot serve are refused, not answered."""

    def gen(rng):
        return {"how": rng.choice(["method", "reduce_method", "numpy_prescribed"])}

    def make(p):
        r = rs(p)
        return [p["how"], (r.uniform(-1, 1, (3, 3)) + 3 * np.eye(3)).tolist(), r.uniform(-1, 1, 3).tolist()]

    def call(a):
        how, A, B = a[0], np.array(a[1]), np.array(a[2])
        try:
            if how == "method":
                SV().linsolve(A, B, method="Cholesky")
            elif how == "reduce_method":
                SV().reduce(A, B, method="LU")
            else:
                SV().linsolve(A, B, presc_bool=np.array([True, False, False]), presc_val=np.zeros(3))
        except (AttributeError, ValueError, AssertionError, TypeError, NotImplementedError):
            return "refused"
        return "answered"

    def ref(a):
        return "refused"


@op("small_tables", T)
class _:
    def gen(rng):
        return {"f": rng.choice(["perm", "unit", "norm", "normalize", "normalize_frame"]), "n": rng.choice([2, 3, 3, 4]), "k": rng.randint(0, 3)}

    def make(p):
        r = rs(p)
        x = {"perm": p["n"], "unit": p["n"], "norm": r.uniform(0.5, 2, p["n"]), "normalize": r.uniform(0.5, 2, p["n"]), "normalize_frame": mats(r, (), p["n"])}[p["f"]]
        return [p["f"], x, min(p["k"], p["n"] - 1), float(r.uniform(1, 4))]

    def call(a):
        f, x, k, v = a
        if f == "perm":
            return U().permutation_tensor(x)
        if f == "unit":
            return U().unit_basis_vector(x, k, v)
        return getattr(U(), f)(x)

    def ref(a):
        f, x, k, v = a
        if f == "perm":
            out = np.zeros((x,) * x)
            for q in itertools.permutations(range(x)):
                inv = sum(1 for i in range(x) for j in range(i) if q[j] > q[i])
                out[q] = -1 if inv % 2 else 1
            return out
        if f == "unit":
            return np.array([v if i == k else 0.0 for i in range(x)])
        if f == "norm":
            return float(sum(t * t for t in x) ** 0.5)
        if f == "normalize":
            return x / sum(t * t for t in x) ** 0.5
        return np.array([row / sum(t * t for t in row) ** 0.5 for row in x])
