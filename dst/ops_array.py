"""Array utilities with parallel kernels (C09)."""
import numpy as np

from .calls import LAYOUTS, lay, op, rs, size, size1

T = {"array"}


def M():
    import sigmaepsilon.math as m

    return m


def UT():
    import sigmaepsilon.math.utils as m

    return m


def arr(r, shape, dt):
    if dt == "i":
        return r.randint(-9, 9, shape)
    return r.uniform(-3, 3, shape)


@op("repeat", T)
class _:
    def gen(rng):
        return {"n": size(rng), "m": rng.randint(1, 5), "d": rng.randint(1, 4), "t": rng.choice("fi"), "lay": rng.choice(LAYOUTS)}

    def make(p):
        return [lay(arr(rs(p), (p["m"], p["d"]), p["t"]), p["lay"]), p["n"]]

    def call(a):
        return UT().repeat(*a)

    def ref(a):
        return np.array([[[a[0][i, j] for j in range(a[0].shape[1])] for i in range(a[0].shape[0])] for _ in range(a[1])], dtype=a[0].dtype).reshape((a[1],) + a[0].shape)


@op("repeat1d", T)
class _:
    def gen(rng):
        return {"n": size(rng), "m": rng.randint(1, 7), "t": rng.choice("fi")}

    def make(p):
        return [arr(rs(p), p["m"], p["t"]), p["n"]]

    def call(a):
        return UT().repeat1d(*a)

    def ref(a):
        return np.array(list(a[0]) * a[1], dtype=a[0].dtype)


@op("tile", T)
class _:
    def gen(rng):
        return {"n": size(rng), "m": rng.randint(1, 5), "d": rng.randint(1, 4), "t": rng.choice("fi"), "u": rng.choice("fi"), "one": rng.random() < 0.4}

    def make(p):
        r = rs(p)
        sh = (p["m"],) if p["one"] else (p["m"], p["d"])
        return [arr(r, sh, p["t"]), arr(r, sh, p["u"]), p["n"]]

    def call(a):
        return (UT().tile1d if a[0].ndim == 1 else UT().tile)(*a)

    def ref(a):
        out = [a[0] + i * a[1] for i in range(a[2])]
        if a[0].ndim == 1:
            return np.array([x for o in out for x in o])
        return np.array(out).reshape((a[2],) + a[0].shape)


@op("repeat_diagonal", T)
class _:
    def gen(rng):
        return {"n": size(rng, 0.02) % 20, "m": rng.randint(1, 4), "d": rng.randint(1, 4), "t": rng.choice("fi"), "lay": rng.choice(LAYOUTS)}

    def make(p):
        return [lay(arr(rs(p), (p["m"], p["d"]), p["t"]), p["lay"]), p["n"]]

    def call(a):
        return UT().repeat_diagonal_2d(*a)

    def ref(a):
        A, n = a
        m, d = A.shape
        return np.array([[A[i % m, j % d] if i // m == j // d else 0 for j in range(n * d)] for i in range(n * m)], dtype=A.dtype).reshape(n * m, n * d)


@op("to_range_1d", T)
class _:
    def gen(rng):
        return {"n": size1(rng), "target": rng.random() < 0.7, "int": rng.random() < 0.25}

    def make(p):
        r = rs(p)
        s0 = r.uniform(-2, 2)
        t0 = r.uniform(-2, 2)
        src = np.array([s0, s0 + r.uniform(0.3, 4)])
        tgt = np.array([t0, t0 + r.uniform(-4, 4)]) if p["target"] else None
        if p["int"]:
            src = np.array([int(r.randint(-3, 3)), 4])
            return [r.randint(-9, 9, p["n"]), src, tgt]
        return [r.uniform(-3, 3, p["n"]), src, tgt]

    def call(a):
        return UT().to_range_1d(a[0], source=a[1], target=a[2])

    def ref(a):
        t = (-1.0, 1.0) if a[2] is None else a[2]
        return np.array([t[0] + (t[1] - t[0]) * (v - a[1][0]) / (a[1][1] - a[1][0]) for v in a[0]])


@op("equal_rows", T)
class _:
    """Pairs of equal rows of two tables, exactly or within a tolerance."""

    def gen(rng):
        return {"n": size1(rng, 0.03), "m": size1(rng, 0.03), "d": rng.randint(1, 4), "t": rng.choice(["ff", "ff", "ii", "if", "fi"]),
                "sq": rng.random() < 0.4, "tol": rng.choice([None, None, 0.47]), "noise": rng.choice([0.0, 0.0, 1e-14, 1e-6, 0.05]), "lay": rng.choice(LAYOUTS)}

    def make(p):
        r = rs(p)
        n, m, d = p["n"], (p["n"] if p["sq"] else p["m"]), p["d"]
        x = r.randint(-2, 3, (n, d))
        y = r.randint(-2, 3, (m, d))
        tab = []
        for A, t in ((x, p["t"][0]), (y, p["t"][1])):
            if t == "f":
                A = A + 0.25 * (p["t"] == "ff") + p["noise"] * r.randint(-1, 2, A.shape) + 0.5 * (p["t"] != "ff") * (r.rand(*A.shape) < 0.2)
            tab.append(lay(A, p["lay"]))
        return tab + ([] if p["tol"] is None else [p["tol"]])

    def call(a):
        return UT().indices_of_equal_rows(*a)

    def ref(a):
        x, y = a[:2]
        exact = x.dtype.kind == "i" and y.dtype.kind == "i"
        tol = 0 if exact else (a[2] if len(a) > 2 else 1e-12)
        pr = [(i, j) for i in range(len(x)) for j in range(len(y)) if sum(abs(float(u) - float(v)) for u, v in zip(x[i], y[j])) <= tol]
        return (np.array([i for i, _ in pr], dtype=int), np.array([j for _, j in pr], dtype=int))


@op("count_cols", T)
class _:
    def gen(rng):
        return {"n": size1(rng, 0.03), "d": rng.randint(1, 5), "jag": rng.random() < 0.5}

    def make(p):
        r = rs(p)
        if p["jag"]:
            return [[[int(v) for v in r.randint(0, 9, r.randint(0, 6))] for _ in range(p["n"])]]
        return [r.randint(0, 9, (p["n"], p["d"]))]

    def call(a):
        x = a[0]
        if isinstance(x, list):
            import awkward as ak

            x = ak.Array(x)
        return UT().count_cols(x)

    def ref(a):
        return np.array([len(row) for row in a[0]], dtype=int)


@op("find", T)
class _:
    """Positions of values in a table of unique values."""

    def gen(rng):
        return {"n": size1(rng), "m": rng.randint(1, 30), "k": rng.randint(1, 5), "two": rng.random() < 0.5}

    def make(p):
        r = rs(p)
        space = r.permutation(100)[: p["m"]]
        a = r.choice(space, (p["n"], p["k"]) if p["two"] else (p["n"],))
        return [a, space]

    def call(a):
        return (UT().find2d if a[0].ndim == 2 else UT().find1d)(*a)

    def ref(a):
        pos = {int(v): i for i, v in enumerate(a[1])}
        return np.vectorize(lambda v: pos[int(v)], otypes=[int])(a[0]).reshape(a[0].shape)


@op("histogram", T)
class _:
    def gen(rng):
        return {"n": size1(rng), "k": rng.choice([1, 2, 3, 5, 8, 70]), "edges": rng.random() < 0.3, "given": rng.random() < 0.3, "int": rng.random() < 0.3,
                "kw": rng.choice([None, None, "density", "range", "rangepos", "weights"])}

    def make(p):
        r = rs(p)
        data = r.uniform(-1, 1, p["n"])
        bins = np.sort(r.uniform(-1, 1, p["k"] + 1)) if p["given"] else p["k"]
        if p["int"]:
            data = r.randint(-9, 9, p["n"])
            if p["given"]:
                bins = np.cumsum(r.randint(1, 4, p["k"] + 1)) - 6
        args, kw = (), {}
        if p["kw"] == "density":
            kw["density"] = True
            data = data.astype(float)
            data[0] = bins[0] if p["given"] else data[0]
        elif p["kw"] == "range":
            kw["range"] = (-0.75, 0.5)
        elif p["kw"] == "rangepos":
            args = ((-2.0, 5.0),)
        elif p["kw"] == "weights":
            kw["weights"] = r.randint(1, 9, p["n"]) / 4.0
        return [data, bins, p["edges"], args, kw]

    def call(a):
        return M().histogram(a[0], a[1], *a[3], return_edges=a[2], **a[4])

    def ref(a):
        data, bins, edges, args, kw = a
        if isinstance(bins, np.ndarray):
            e = bins
        else:
            lo, hi = args[0] if args else kw.get("range", (data.min(), data.max()))
            if lo == hi:
                lo, hi = lo - 0.5, hi + 0.5
            e = np.array([lo + (hi - lo) * i / bins for i in range(bins + 1)])
        # counts as numpy defines them, centres by hand
        h = np.histogram(data, bins, *args, **kw)[0]
        return (h, e) if edges else (h, np.array([(e[i] + e[i + 1]) / 2 for i in range(len(e) - 1)]))


@op("shapes", T)
class _:
    """Reshaping helpers: at-least-n-d, matrix form, flattening."""

    def gen(rng):
        return {"f": rng.choice(["atleast1d", "atleast2d", "atleast3d", "atleast4d", "atleastnd", "matrixform", "flattenC", "flattenF", "bool_to_float", "ascont",
                                "minmax", "clip1d"]), "as": rng.choice(["array", "array", "list", "number"]),
                "n": rng.randint(1, 6), "d": rng.randint(1, 4), "two": rng.random() < 0.5, "back": rng.random() < 0.5, "lay": rng.choice(LAYOUTS)}

    def make(p):
        r = rs(p)
        two = p["two"] or p["f"].startswith("flatten")
        A = r.uniform(-1, 1, (p["n"], p["d"]) if two else (p["n"],))
        if p["f"] == "bool_to_float":
            A = A > 0
        if p["f"] == "clip1d":
            A = A.ravel()
        if A.ndim == 2:
            A = lay(A, p["lay"])
        if p["f"][:7] in ("atleast", "matrixf", "bool_to") and p.get("as") == "list":
            A = A.tolist()
        elif p["f"][:7] in ("atleast", "matrixf") and p.get("as") == "number":
            A = float(A.ravel()[0])
        return [A, p["f"], p["back"]]

    def call(a):
        A, f, back = a
        u = UT()
        if f.startswith("flatten"):
            return u.flatten2d(A, order=f[-1])
        if f == "bool_to_float":
            return u.bool_to_float(A, 2.0, -3.0)
        if f in ("atleast2d", "atleast3d", "atleast4d"):
            return getattr(u, f)(A, back=back)
        if f == "atleastnd":
            return u.atleastnd(A, 5, front=False) if back else u.atleastnd(A, 5)
        if f == "clip1d":
            return u.clip1d(A.copy(), -0.25, 0.5)  # works in place
        if f == "minmax":
            return [float(v) for v in u.minmax(A)]
        return getattr(u, f)(A)

    def ref(a):
        A, f, back = a
        A = np.array([A]) if isinstance(A, float) else np.array(A)
        if f == "clip1d":
            return np.array([min(max(v, -0.25), 0.5) for v in A])
        if f == "minmax":
            v = sorted(float(x) for x in A.ravel())
            return [v[0], v[-1]]
        if f.startswith("flatten"):
            m, n = A.shape
            return np.array([A[i, j] for i in range(m) for j in range(n)] if f[-1] == "C" else [A[i, j] for j in range(n) for i in range(m)])
        if f == "bool_to_float":
            return np.where(A, 2.0, -3.0)
        if f in ("ascont", "atleast1d"):
            return A
        if f == "matrixform":
            return A if A.ndim == 2 else A[:, None]
        n = int(f[7]) if f != "atleastnd" else 5
        k = max(0, n - A.ndim)
        return A.reshape(A.shape + (1,) * k) if back else A.reshape((1,) * k + A.shape)


@op("count_cols_csr", T)
class _:
    def gen(rng):
        return {"n": size1(rng, 0.03), "w": rng.randint(1, 6), "empty": rng.random() < 0.5}

    def make(p):
        r = rs(p)
        w = r.randint(0 if p["empty"] else 1, p["w"] + 1, p["n"])
        ind = [j for k in w for j in sorted(r.permutation(9)[:k])]
        return [np.cumsum([0] + list(w)), np.array(ind, dtype=int)]

    def call(a):
        return UT().count_cols_csr(*a)

    def ref(a):
        return np.array([a[0][i + 1] - a[0][i] for i in range(len(a[0]) - 1)], dtype=int)
