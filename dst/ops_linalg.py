"""Bulk linear-algebra operations (C08)."""
import numpy as np

from .calls import LAYOUTS, lay, mats, op, rs, size, size1

T = {"linalg"}


def U():
    import sigmaepsilon.math.linalg.utils as m

    return m


def L():
    import sigmaepsilon.math.linalg as m

    return m


def lays(rng, k=2):
    return [rng.choice(LAYOUTS) for _ in range(k)]


@op("show_vector", T)
class _:
    def gen(rng):
        return {"kind": rng.choice(["11", "21", "21", "22", "22"]), "n": size(rng), "d": rng.choice([2, 3, 3, 4]), "lay": lays(rng)}

    def make(p):
        r, n, d = rs(p), p["n"], p["d"]
        dcm = mats(r, (n,) if p["kind"] == "22" else (), d)
        arr = r.uniform(-2, 2, (d,) if p["kind"] == "11" else (n, d))
        return [lay(dcm, p["lay"][0]), lay(arr, p["lay"][1] if arr.ndim > 1 else "C")]

    def call(a):
        return U().show_vector(*a)

    def ref(a):
        D, x = a
        if x.ndim == 1:
            return np.array([sum(D[i, j] * x[j] for j in range(len(x))) for i in range(len(x))])
        if D.ndim == 2:
            return np.array([D.dot(v) for v in x]).reshape(x.shape)
        return np.array([d.dot(v) for d, v in zip(D, x)]).reshape(x.shape)


@op("show_frame", T)
class _:
    def gen(rng):
        return {"kind": rng.choice(["11", "21", "22"]), "n": size(rng, 0.04), "d": rng.choice([2, 3, 3, 4]), "lay": lays(rng)}

    def make(p):
        r, n, d = rs(p), p["n"], p["d"]
        dcm = mats(r, (n,) if p["kind"] == "22" else (), d)
        arr = mats(r, () if p["kind"] == "11" else (n,), d)
        return [lay(dcm, p["lay"][0]), lay(arr, p["lay"][1])]

    def call(a):
        return U().show_frame(*a)

    def ref(a):
        D, x = a
        if x.ndim == 2:
            return np.array([D.dot(v) for v in x])
        if D.ndim == 2:
            return np.array([[D.dot(v) for v in f] for f in x]).reshape(x.shape)
        return np.array([[d.dot(v) for v in f] for d, f in zip(D, x)]).reshape(x.shape)


@op("bulk_frame_axes", T)
class _:
    """A frame holding many sets of axes: dual and Gram matrices."""

    def gen(rng):
        return {"n": size1(rng), "d": rng.choice([2, 3, 3, 4]), "what": rng.choice(["Gram", "dual"]), "one": rng.random() < 0.2, "grid": rng.random() < 0.2}

    def make(p):
        lead = () if p["one"] else (min(p["n"], 6), 3) if p["grid"] else (p["n"],)
        return [mats(rs(p), lead, p["d"]), p["what"]]

    def call(a):
        f = U().Gram if a[1] == "Gram" else U().dual_frame
        return f(a[0])

    def ref(a):
        A = a[0].reshape((-1,) + a[0].shape[-2:])
        if a[1] == "Gram":
            out = np.array([[[float(np.dot(u, v)) for v in f] for u in f] for f in A])
        else:
            out = np.array([np.linalg.solve(f, np.eye(f.shape[0])).T for f in A])
        return out.reshape(a[0].shape)


def segment(p):
    """Two end points, possibly with some or all coordinates in common."""
    r = rs(p)
    d = p["d"]
    a = r.randint(-5, 6, d) if p["int"] else r.uniform(-2, 2, d)
    b = r.randint(1, 9, d) if p["int"] else r.uniform(0.2, 3, d)
    b = a + b * r.choice([-1, 1], d) * (r.uniform(0, 1, d) >= p["flat"])
    return [a, b, p["n"]]


@op("linspace", T)
class _:
    def gen(rng):
        return {"n": max(2, size(rng)), "d": rng.choice([1, 2, 3, 5]), "flat": rng.choice([0, 0, 0, 0.5, 1.0]), "int": rng.random() < 0.15}

    make = segment

    def call(a):
        return U().linspace(*a)

    def ref(a):
        p0, p1, n = a
        return np.array([p0 + (p1 - p0) * (i / (n - 1)) for i in range(n)])


@op("linspace1d", T)
class _:
    def gen(rng):
        return {"n": max(2, size(rng))}

    def make(p):
        r = rs(p)
        return [float(r.uniform(-3, 3)), float(r.uniform(-3, 3)), p["n"]]

    def call(a):
        return U().linspace1d(*a)

    def ref(a):
        return np.array([a[0] + (a[1] - a[0]) * (i / (a[2] - 1)) for i in range(a[2])])


@op("vpath", T)
class _:
    def gen(rng):
        return {"n": max(2, size(rng)), "d": rng.choice([1, 2, 3, 5]), "flat": rng.choice([0, 0, 0, 0.5, 1.0]), "int": rng.random() < 0.15}

    make = segment

    def call(a):
        return U().vpath(*a)

    def ref(a):
        p0, p1, n = a
        return np.array([p0 + (p1 - p0) * (i / (n - 1)) for i in range(n)])


@op("inv3x3_bulk", T)
class _:
    def gen(rng):
        return {"n": size(rng), "f": rng.choice(["inv3x3_bulk", "inv3x3_bulk2"]), "lay": lays(rng, 1)}

    def make(p):
        r = rs(p)
        A = mats(r, (p["n"],), 3)
        perm = r.permutation(3)
        return [lay(A[:, perm, :], p["lay"][0]), p["f"]]

    def call(a):
        return getattr(U(), a[1])(a[0])

    def ref(a):
        return np.array([np.linalg.solve(m, np.eye(3)) for m in a[0]]).reshape(a[0].shape)


@op("inv_small", T)
class _:
    def gen(rng):
        return {"f": rng.choice(["inv2x2", "inv3x3", "inv", "inv2x2u", "inv3x3u", "adj3x3", "det2x2", "det3x3"]), "n": size1(rng, 0.03), "int": rng.random() < 0.3,
                "one": rng.random() < 0.3, "out": rng.random() < 0.3}

    def make(p):
        d = 2 if "2x2" in p["f"] else 3
        r = rs(p)
        gu = p["f"].endswith("u") or p["f"][:3] in ("adj", "det")
        A = mats(r, (p["n"],) if gu and not p.get("one") else (), d)
        if p.get("int") and p["f"] == "inv2x2":
            A = r.randint(-3, 4, (2, 2)) + 7 * np.eye(2, dtype=int)
        return [A, p["f"], bool(gu and p.get("out") and p["f"][:3] != "det")]

    def call(a):
        if a[2]:
            out = np.full(a[0].shape, 7.0)
            getattr(U(), a[1])(a[0], out)
            return out
        return getattr(U(), a[1])(a[0])

    def ref(a):
        A, f, _ = a
        B = A if A.ndim == 3 else A[None]
        if f[:3] == "det":
            out = np.array([np.linalg.det(m) for m in B])
            return out if A.ndim == 3 else out[0]
        out = np.array([np.linalg.solve(m, np.eye(len(m))) * (np.linalg.det(m) if f == "adj3x3" else 1) for m in B])
        return out if A.ndim == 3 else out[0]


@op("norms", T)
class _:
    def gen(rng):
        return {"n": size(rng), "d": rng.choice([1, 2, 3, 7]), "f": rng.choice(["norm2d", "normalize2d"]), "lay": lays(rng, 1)}

    def make(p):
        r = rs(p)
        A = r.uniform(0.3, 3, (p["n"], p["d"])) * r.choice([-1, 1], (p["n"], p["d"]))
        return [lay(A, p["lay"][0]), p["f"]]

    def call(a):
        return getattr(U(), a[1])(a[0])

    def ref(a):
        n = np.array([sum(x * x for x in row) ** 0.5 for row in a[0]])
        if a[1] == "norm2d":
            return n.reshape(len(a[0]))
        return np.array([row / k for row, k in zip(a[0], n)]).reshape(a[0].shape)


@op("tensor2_bulk", T)
class _:
    """Components of many second order tensors in one or many target frames."""

    def gen(rng):
        k = rng.choice(["31", "41", "51", "33", "43", "53", "21"])
        return {"kind": k, "n": size1(rng, 0.05), "m": rng.randint(1, 4), "lay": lays(rng), "cls": rng.choice(["Tensor2x3", "Tensor2x3", "Tensor2"])}

    def make(p):
        r, n, m = rs(p), p["n"], p["m"]
        lead = {"2": (), "3": (n,), "4": (n, m), "5": (n, m, 2)}[p["kind"][0]]
        Q = mats(r, (n,) if p["kind"][1] == "3" else (), 3)
        A = r.uniform(-2, 2, lead + (3, 3))
        cls = p["cls"] if len(lead) <= 1 else "Tensor2x3"
        return [lay(A, p["lay"][0]), lay(Q, p["lay"][1]), cls]

    def call(a):
        A, Q, cls = a
        kw = {"bulk": True} if A.ndim > 2 else {}
        t = getattr(L(), cls)(A, **kw)
        return np.asarray(t.show(dcm=Q))

    def ref(a):
        A, Q, _ = a
        out = np.zeros(A.shape)
        for idx in np.ndindex(*A.shape[:-2]):
            q = Q[idx[0]] if Q.ndim == 3 else Q
            t = A[idx]
            for i in range(3):
                for j in range(3):
                    out[idx + (i, j)] = sum(q[i, k] * t[k, l] * q[j, l] for k in range(3) for l in range(3))
        return out


@op("tensor4_bulk", T, heavy=20)
class _:
    def gen(rng):
        return {"kind": rng.choice(["51", "53", "63", "73", "41"]), "n": rng.randint(1, 3), "m": rng.randint(1, 2)}

    def make(p):
        r, n, m = rs(p), p["n"], p["m"]
        lead = {"4": (), "5": (n,), "6": (n, m), "7": (n, m, 1)}[p["kind"][0]]
        Q = mats(r, (n,) if p["kind"][1] == "3" else (), 3)
        return [r.uniform(-2, 2, lead + (3,) * 4), Q]

    def call(a):
        A, Q = a
        return np.asarray(L().Tensor4x3(A).show(dcm=Q))

    def ref(a):
        A, Q = a
        out = np.zeros(A.shape)
        for idx in np.ndindex(*A.shape[:-4]):
            q = Q[idx[0]] if Q.ndim == 3 else Q
            t = A[idx]
            for ax in range(4):
                t = np.moveaxis(np.tensordot(q, t, axes=(1, ax)), 0, ax)
            out[idx] = t
        return out


@op("bulk_vector_show", T)
class _:
    """Vectors stored together, seen from another frame."""

    def gen(rng):
        return {"n": size1(rng), "d": rng.choice([2, 3, 3])}

    def make(p):
        r = rs(p)
        return [r.uniform(-2, 2, (p["n"], p["d"])), mats(r, (), p["d"]), mats(r, (), p["d"])]

    def call(a):
        X, F, G = a
        m = L()
        v = m.Vector(X, frame=m.ReferenceFrame(F))
        return np.asarray(v.show(m.ReferenceFrame(G)))

    def ref(a):
        X, F, G = a
        return np.array([np.linalg.solve(G.T, F.T.dot(x)) for x in X])
