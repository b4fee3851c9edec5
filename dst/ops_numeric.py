"""Quadrature, Lagrange interpolation and nearest neighbours (C15)."""
import numpy as np

from .calls import LAYOUTS, lay, op, rs

T = {"numeric"}


def NI():
    import sigmaepsilon.math.numint as m

    return m


def AP():
    import sigmaepsilon.math.approx as m

    return m


_legs = {}


def legendre(n):
    """Gauss-Legendre nodes and weights: Newton on the recurrence, no library."""
    if n in _legs:
        return _legs[n]

    def P(x):
        a, b = 1.0, x
        if n == 0:
            return 1.0, 0.0
        for k in range(2, n + 1):
            a, b = b, ((2 * k - 1) * x * b - (k - 1) * a) / k
        return b, n * (x * b - a) / (x * x - 1)

    xs, ws = [], []
    for i in range(1, n + 1):
        x = np.cos(np.pi * (i - 0.25) / (n + 0.5))
        for _ in range(100):
            f, d = P(x)
            x2 = x - f / d
            if abs(x2 - x) < 1e-16:
                break
            x = x2
        f, d = P(x)
        xs.append(x)
        ws.append(2 / ((1 - x * x) * d * d))
    o = np.argsort(xs)
    _legs[n] = (np.array(xs)[o], np.array(ws)[o])
    return _legs[n]


@op("gauss_points", T)
class _:
    def gen(rng):
        d = rng.choice([1, 2, 2, 3, 3])
        return {"o": [rng.choice([1, 2, 3, 4, 5, 7]) if d > 1 else rng.randint(1, 16) for _ in range(d)], "direct": rng.random() < 0.4}

    def twin(rng, c):
        return {"o": rng.sample(c["o"], len(c["o"]))} if rng.random() < 0.7 else {"direct": not c["direct"]}

    def make(p):
        return [list(p["o"]), p["direct"]]

    def call(a):
        o, direct = a
        if direct:
            if len(o) == 1:
                return NI().gauss_points_1d(o[0])
            return (NI().gauss_points_2d if len(o) == 2 else NI().gauss_points_3d)(o)
        return NI().gauss_points(*o)

    def ref(a):
        qs = [legendre(n) for n in a[0]]
        if len(qs) == 1:
            return np.array([qs[0][0], qs[0][1]])
        pos, w = [[]], [1.0]
        for x, v in qs:
            pos = [p + [t] for p in pos for t in x]
            w = [u * t for u in w for t in v]
        return (np.array(pos), np.array(w))


@op("integrate", T)
class _:
    """A rule with n points per direction is exact for polynomials of degree
    2n-1 in that direction."""

    def gen(rng):
        d = rng.randint(1, 3)
        return {"o": [rng.randint(1, 6) for _ in range(d)]}

    def make(p):
        r = rs(p)
        return [list(p["o"]), [list(r.uniform(-1, 1, 2 * n)) for n in p["o"]]]

    def call(a):
        o, cs = a
        q = NI().gauss_points(*o)
        pos, w = (q[0][:, None], q[1]) if len(o) == 1 else q
        v = np.ones(len(w))
        for j, c in enumerate(cs):
            v = v * np.polynomial.polynomial.polyval(pos[:, j], c)
        return float((v * w).sum())

    def ref(a):
        out = 1.0
        for c in a[1]:
            out *= sum(x * (1 - (-1) ** (k + 1)) / (k + 1) for k, x in enumerate(c))
        return out


def nodes(p):
    r = rs(p)
    x = np.cumsum(r.uniform(0.35, 1.0, p["N"]))
    x = x - x.mean()
    if p.get("perm"):
        x = x[r.permutation(len(x))]
    if p.get("int"):
        x = np.arange(len(x)) - 1.0
        x = [int(v) for v in x]
    elif p.get("list"):
        x = [float(v) for v in x]
    return x, r


def lagrange(x, j, t, der):
    """Value (or derivative) of the j-th cardinal polynomial at t."""
    c = np.array([1.0])
    for m, xm in enumerate(x):
        if m != j:
            c = np.polynomial.polynomial.polymul(c, np.array([-xm, 1.0]) / (x[j] - xm))
    if der:
        c = np.polynomial.polynomial.polyder(c, der) if len(c) > der else np.array([0.0])
    return np.polynomial.polynomial.polyval(t, c)


@op("lagrange_basis", T, tol=1e-6, heavy=40)
class _:
    """Cardinal polynomials and three derivatives, evaluated."""

    def gen(rng):
        return {
            "N": rng.choice([2, 2, 2, 3, 3, 4]), "x": rng.random() < 0.8, "perm": rng.random() < 0.4, "int": rng.random() < 0.3, "list": rng.random() < 0.5,
            "lam": rng.random() < 0.5, "idx": rng.random() < 0.5, "sym": rng.random() < 0.15, "xsym": rng.choice([None, None, "s", r"\xi"]), "fsym": rng.choice([None, "N"]),
        }

    def twin(rng, c):
        k = rng.choice(["x", "perm", "int", "lam", "idx"])
        return {k: not c[k]}

    def make(p):
        x, r = nodes(p)
        idx = [int(v) for v in r.permutation(20)[: p["N"]]] if p["idx"] else None
        sym = p["sym"] and p["N"] == 2
        return [x, p["x"] or sym, idx, p["lam"] and not sym, sym, p["xsym"], p["fsym"], r.uniform(-1, 1, 3)]

    def call(a):
        import sympy as sy

        x, givex, idx, lam, sym, xsym, fsym, ts = a
        kw = {}
        if xsym:
            kw["xsym"] = xsym
        if fsym:
            kw["fsym"] = fsym
        n = len(x)
        if sym:
            f = AP().gen_Lagrange_1d(i=idx, N=n, sym=True, **kw)
        elif givex:
            f = AP().gen_Lagrange_1d(x=x, i=idx, lambdify=lam, **kw)
        else:
            f = AP().gen_Lagrange_1d(N=n, i=idx, lambdify=lam, **kw)
        keys = list(idx) if idx is not None else list(range(1, n + 1))
        xv = sy.symbols(xsym or "x")
        sub = {sy.Symbol((xsym or "x") + f"_{j + 1}"): x[j] for j in range(n)} if sym else {}
        out = []
        for k in keys:
            for d in range(4):
                if lam:
                    g = f[k]["fnc"][d]
                    out.append([float(np.asarray(g(t))) for t in ts])
                else:
                    e = sy.sympify(f[k][d])
                    out.append([float(e.subs(sub).subs(xv, t)) for t in ts])
        return sorted(int(k) for k in f.keys()), np.array(out)

    def ref(a):
        x, givex, idx, lam, sym, xsym, fsym, ts = a
        n = len(x)
        if not givex:
            x = [-1 + 2 * j / (n - 1) for j in range(n)]
        keys = list(idx) if idx is not None else list(range(1, n + 1))
        return sorted(keys), np.array([[float(lagrange(x, j, t, d)) for t in ts] for j in range(n) for d in range(4)])


@op("lagrange_approx", T, tol=1e-6, heavy=40)
class _:
    def gen(rng):
        return {"N": rng.choice([2, 2, 3, 3, 4]), "perm": rng.random() < 0.4, "int": rng.random() < 0.3, "list": rng.random() < 0.5, "lam": rng.random() < 0.6}

    def make(p):
        x, r = nodes(p)
        v = r.uniform(-2, 2, p["N"])
        if p["int"]:
            v = [int(u * 5) for u in v]
        return [x, v, p["lam"], r.uniform(-1, 1, 3)]

    def call(a):
        x, v, lam, ts = a
        f = AP().approx_Lagrange_1d(x, v, lambdify=lam)
        if lam:
            return np.array([float(f(t)) for t in list(x) + list(ts)])
        return np.array([float(f.subs("x", t)) for t in list(x) + list(ts)])

    def ref(a):
        x, v, lam, ts = a
        return np.array([sum(v[j] * lagrange(x, j, t, 0) for j in range(len(x))) for t in list(x) + list(ts)])


@op("nearest", T)
class _:
    """Nearest neighbours against brute force (points in general position, so
    there are no ties)."""

    def gen(rng):
        n = rng.choice([1, 2, 3, 5, 9, 20, 70])
        many = rng.random() < 0.25
        return {
            "n": n, "m": rng.choice([None, None, 1, 2, 6, 17]), "d": rng.randint(1, 3), "k": rng.randint(1, min(n, 5)), "seq": many,
            "over": rng.random() < 0.1, "maxd": rng.choice([None, None, 0.3, 1.0]), "dist": rng.random() < 0.5, "workers": rng.choice([None, 1, 2, -1]),
            "p": rng.choice([None, None, 1, 2]), "leaf": rng.choice([None, 1, 10]), "lay": rng.choice(LAYOUTS), "kw": rng.random() < 0.5,
        }

    def twin(rng, c):
        return {"perm": rng.randint(1, 99)} if rng.random() < 0.5 else {"leaf": rng.choice([None, 1, 10]), "p": rng.choice([None, 1, 2]), "maxd": rng.choice([None, 0.3, 1.0])}

    def make(p):
        r = rs(p)
        X = lay(r.uniform(-1, 1, (p["n"], p["d"])), p["lay"])
        if p.get("perm"):  # the same points under other numbers
            X = lay(X[np.random.RandomState(p["perm"]).permutation(len(X))], p["lay"])
        Y = None if p["m"] is None else lay(r.uniform(-1, 1, (p["m"], p["d"])), p["lay"])
        k = p["k"] + (2 if p["over"] else 0)
        if p["seq"]:
            k = sorted({int(v) for v in r.randint(1, k + 1, 2)})
        kw = {"k": k, "return_distance": p["dist"]}
        if p["maxd"] is not None:
            kw["max_distance"] = p["maxd"]
        if p["workers"] is not None:
            kw["workers"] = p["workers"]
        if p["leaf"] is not None:
            kw["leaf_size"] = p["leaf"]
        if p["p"] is not None or p["kw"]:
            kw["query_kwargs"] = {} if p["p"] is None else {"p": p["p"]}
        if p["kw"]:
            kw["tree_kwargs"] = {"balanced_tree": bool(p["s"] % 2)}
        return [X, Y, kw]

    def call(a):
        import sigmaepsilon.math.knn as m

        return m.k_nearest_neighbours(a[0], **a[2]) if a[1] is None else m.k_nearest_neighbours(a[0], a[1], **a[2])

    def ref(a):
        X, Y, kw = a
        Y = X if Y is None else Y
        k = kw["k"]
        ks = [q - 1 for q in k] if isinstance(k, list) else list(range(k))
        pw = kw.get("query_kwargs", {}).get("p", 2)
        lim = kw.get("max_distance", np.inf)
        D, I = [], []
        for y in Y:
            ds = [float((np.abs(x - y) ** pw).sum() ** (1 / pw)) for x in X]
            o = sorted((d, i) for i, d in enumerate(ds) if d < lim)
            o += [(np.inf, len(X))] * (max(ks) + 1)
            D.append([o[q][0] for q in ks])
            I.append([o[q][1] for q in ks])
        D, I = np.array(D), np.array(I)
        if k == 1:
            D, I = D[:, 0], I[:, 0]
        return (D, I) if kw["return_distance"] else I
