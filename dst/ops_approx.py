"""Approximations over point clouds (C10): long-lived approximators, fits and
weight functions used through histories and by several callers at once."""
import itertools

import numpy as np

from .calls import LAYOUTS, Holder, kind, lay, op, rs, size1

T = {"approx"}


def A():
    import sigmaepsilon.math.approx as m

    return m


# ------------------------------------------------------------ MLSApproximator
def cloud(r, n, d, flat):
    X = r.uniform(0, 1, (n, d))
    return X[:, 0].copy() if flat else X


def data(r, n, tail, dt):
    if dt == "i":
        return r.randint(-9, 9, (n,) + tuple(tail))
    return r.uniform(-2, 2, (n,) + tuple(tail))


def ref_knn_mean(X, Y, XT, k, maxd):
    X = X.reshape(len(X), -1)
    XT = XT.reshape(len(XT), -1)
    out = []
    for t in XT:
        dist = np.array([sum((a - b) ** 2 for a, b in zip(x, t)) ** 0.5 for x in X])
        near = np.argsort(dist, kind="stable")[:k]
        if maxd is not None:
            near = [i for i in near if dist[i] < maxd]
        if len(near) == 0:
            out.append(np.full(Y.shape[1:], np.nan))
        else:
            out.append(sum(Y[i].astype(float) for i in near) / len(near))
    return np.array(out)


@kind("approximator")
class _:
    def gen(rng):
        d = rng.choice([1, 2, 3])
        return {
            "n": rng.choice([1, 2, 3, 5, 9, 17, 30]), "d": d, "flat": d == 1 and rng.random() < 0.5,
            "tail": rng.choice([[], [], [1], [2], [3], [2, 2], [3, 1]]), "t": rng.choice("ffi"),
            "k": rng.choice([None, None, 1, 2, 3, 5, 8]), "maxd": rng.choice([None, None, None, 0.3, 0.8]),
        }

    def make(p):
        r = rs(p)
        X, Y = cloud(r, p["n"], p["d"], p["flat"]), data(r, p["n"], p["tail"], p["t"])
        kw = {}
        if p["k"] is not None:
            kw["k"] = p["k"]
        if p["maxd"] is not None:
            kw["max_distance"] = p["maxd"]
        obj = A().MLSApproximator(X, Y, **kw)
        model = {"X": X.copy(), "Y": Y.copy(), "k": p["k"] or 4, "maxd": p["maxd"]}
        return Holder(p, obj, model, lambda o: {"X": o.X_S, "Y": o.Y_S})


@op("approximate", T, kind="approximator")
class _:
    def gen(rng, p):
        return {"n": size1(rng), "lay": rng.choice(LAYOUTS), "on": rng.random() < 0.2}

    def make(p, m):
        r = rs(p)
        d = 1 if m["X"].ndim == 1 else m["X"].shape[1]
        X = r.uniform(-0.2, 1.2, (p["n"], d))
        return [X[:, 0].copy() if m["X"].ndim == 1 else lay(X, p["lay"])]

    def call(a):
        return a[0].obj.approximate(a[1])

    def ref(a):
        m = a[0]["model"]
        return np.squeeze(ref_knn_mean(m["X"], m["Y"], a[1], m["k"], m["maxd"]))


@op("new_source_data", T, kind="approximator", effect=True)
class _:
    def gen(rng, p):
        return {"what": rng.choice(["Y", "Y", "XY"]), "n": rng.choice([2, 6, 12])}

    def make(p, m):
        r = rs(p)
        X, Y = m["X"], m["Y"]
        n = len(X) if p["what"] == "Y" else p["n"]
        Y2 = r.uniform(-3, 3, (n,) + Y.shape[1:])
        X2 = X if p["what"] == "Y" else r.uniform(0, 1, (n,) + X.shape[1:])
        return [X2, Y2, p["what"]]

    def call(a):
        h, X, Y, what = a
        X, Y = X.copy(), Y.copy()
        if what == "XY":
            h.obj.X_S = X
        h.obj.Y_S = Y
        h.model["X"], h.model["Y"] = X.copy(), Y.copy()
        return None

    def ref(a):
        return None


# ------------------------------------------------------------ weight functions
def w_ref(m, core, x):
    """value, gradient and Hessian of a weight, differentiated by the core."""
    d = len(core)
    k = m["w"]
    if k == "const":
        v = m["value"]
        if m["sd"] is not None and any(abs(c - t) / s > 1 for c, t, s in zip(core, x, m["sd"])):
            v = 0
        return v, np.zeros(d), np.zeros((d, d))
    if k == "singular":
        return 1 / (sum((c - t) ** 2 for c, t in zip(core, x)) + m["eps"] ** 2), None, None
    if k == "gauss":
        q = (np.array(core) - np.array(x)) / m["a"] ** 2
        v = float(np.exp(-0.5 * m["a"] ** 2 * (q @ q)))
        return v, -v * q, v * (np.outer(q, q) - np.eye(d) / m["a"] ** 2)
    parts = []
    for c, t, s in zip(core, x, m["sd"]):
        q = (c - t) / s
        r, sg = abs(q), (1.0 if q >= 0 else -1.0)
        if r <= 0.5:
            w, dw, ddw = 2 / 3 - 4 * r**2 + 4 * r**3, -8 * r + 12 * r**2, -8 + 24 * r
        elif r <= 1:
            w, dw, ddw = 4 / 3 - 4 * r + 4 * r**2 - 4 / 3 * r**3, -4 + 8 * r - 4 * r**2, 8 - 8 * r
        else:
            w = dw = ddw = 0.0
        parts.append((w, dw * sg / s, ddw / s**2))
    val = np.prod([p[0] for p in parts])
    g = np.array([np.prod([parts[j][1 if j == i else 0] for j in range(d)]) for i in range(d)])
    H = np.zeros((d, d))
    for i in range(d):
        for j in range(d):
            H[i, j] = np.prod([parts[q][2 if (q == i == j) else 1 if q in (i, j) else 0] for q in range(d)])
    return val, g, H


_OWN = []


def own_weight():
    """A weight function of the caller's own, for any dimension."""
    if not _OWN:
        from sigmaepsilon.math.approx.functions import MLSWeightFunction

        class Bell(MLSWeightFunction):
            def __init__(self, *, a=1.0, **kw):
                super().__init__(**kw)
                self.a = a

            def _q(self, x):
                return (np.atleast_1d(self.core) - np.atleast_1d(x)) / self.a**2

            def value(self, x):
                q = self._q(x)
                return float(np.exp(-0.5 * self.a**2 * (q @ q)))

            def gradient(self, x):
                return -self.value(x) * self._q(x)

            def Hessian(self, x):
                q = self._q(x)
                return self.value(x) * (np.outer(q, q) - np.eye(len(q)) / self.a**2)

        _OWN.append(Bell)
    return _OWN[0]


def make_w(p, r):
    d = p["d"]
    core = r.uniform(0.3, 0.7, d)
    m = {"w": p["w"], "core": core.copy(), "sd": None}
    mod = A()
    if p["w"] == "const":
        m["value"] = float(r.choice([1.0, 2.5]))
        m["sd"] = [float(x) for x in r.uniform(0.75, 2, d)] if p["sd"] else None
        w = mod.ConstantWeightFunction(core=core.copy(), sd=m["sd"], value=m["value"])
    elif p["w"] == "gauss":
        m["a"] = float(r.uniform(0.5, 1.0))
        w = own_weight()(core=core.copy(), a=m["a"])
    elif p["w"] == "singular":
        m["eps"] = 0.4
        w = mod.SingularWeightFunction(core=core.copy(), eps=0.4)
    else:
        m["sd"] = [float(x) for x in r.uniform(1.2, 2, d)]
        w = mod.CubicWeightFunction(core=core.copy(), sd=list(m["sd"]))
    return w, m


def gen_w(rng):
    w = rng.choice(["const", "singular", "cubic", "cubic", "gauss"])
    d = rng.choice([1, 2] if w == "cubic" else [3, 3, 1, 2] if w == "gauss" else [1, 2, 2, 3])
    return {"w": w, "d": d, "sd": rng.random() < 0.5}


def probe(m):
    d = len(m["core"])
    return [np.full(d, x) for x in (0.1, 0.4, 0.9)]


def basis(deg, d):
    return [e for e in itertools.product(range(deg + 1), repeat=d) if sum(e) <= deg]


def mono(e, x, der=()):
    """d^|der| of x^e."""
    e = list(e)
    f = 1.0
    for i in der:
        f *= e[i]
        e[i] -= 1
        if e[i] < 0:
            return 0.0
    return f * np.prod([t**k for t, k in zip(x, e)])


def ref_fit(X, V, deg, order, m, x, core):
    """Value and derivatives of the (moving) weighted least squares fit."""
    X = X.reshape(len(X), -1)
    d = X.shape[1]
    V = V.reshape(len(V), -1)
    E = basis(deg, d)
    P = np.array([[mono(e, t) for e in E] for t in X])
    W = [w_ref(m, core, t) for t in X]
    w0 = np.array([w[0] for w in W])
    Am = P.T @ (w0[:, None] * P)
    c = np.linalg.solve(Am, P.T @ (w0[:, None] * V))
    b = np.array([mono(e, x) for e in E])
    out = [b @ c]
    if W[0][1] is None or order == 0:
        return out
    cg = []
    for i in range(d):
        wi = np.array([w[1][i] for w in W])
        Ai, Bi = P.T @ (wi[:, None] * P), P.T @ (wi[:, None] * V)
        cg.append(np.linalg.solve(Am, Bi - Ai @ c))
    bg = [np.array([mono(e, x, (i,)) for e in E]) for i in range(d)]
    out += [bg[i] @ c + b @ cg[i] for i in range(d)]
    if order < 2:
        return out
    pairs = [(i, i) for i in range(d)] + [(i, j) for i in range(d) for j in range(i + 1, d)]
    for i, j in pairs:
        wij = np.array([w[2][i, j] for w in W])
        wi = np.array([w[1][i] for w in W])
        wj = np.array([w[1][j] for w in W])
        Aij, Bij = P.T @ (wij[:, None] * P), P.T @ (wij[:, None] * V)
        Ai, Aj = P.T @ (wi[:, None] * P), P.T @ (wj[:, None] * P)
        ch = np.linalg.solve(Am, Bij - Aij @ c - Ai @ cg[j] - Aj @ cg[i])
        bh = np.array([mono(e, x, (i, j)) for e in E])
        out.append(bh @ c + bg[i] @ cg[j] + bg[j] @ cg[i] + b @ ch)
    return out


def clouddata(p, r, d):
    n = p["n"]
    X = r.uniform(0, 1, (n, d))
    V = r.uniform(-2, 2, (n, p["rec"]) if p["rec"] else (n,))
    return (X[:, 0].copy() if d == 1 else X), V


def keep(out, nexp):
    """The entries of a fit that were asked for (the rest is None)."""
    return [np.asarray(o, dtype=float) for o in out[:nexp]]


def point(r, d, X=None):
    x = r.uniform(0.25, 0.75, d)
    if X is not None and r.uniform() < 0.3:
        # on top of a data point, or level with it
        y = np.array(X, dtype=float).reshape(len(X), -1)[r.randint(len(X))]
        x = np.where(r.uniform(size=d) < 0.7, y, x)
    return float(x[0]) if d == 1 else x


@kind("weight")
class _:
    def gen(rng):
        return gen_w(rng)

    def make(p):
        w, m = make_w(p, rs(p))

        def look(w):
            pr = probe(m)
            return {
                "core": np.array(w.core), "sd": None if w.supportdomain is None else np.array(w.supportdomain),
                "v": [float(w(x)) for x in pr],
            }

        return Holder(p, w, m, look)


@op("weight_values", T, kind="weight")
class _:
    def gen(rng, p):
        return {}

    def make(p, m):
        r = rs(p)
        x = r.uniform(-0.5, 1.5, len(m["core"]))
        if r.uniform() < 0.3:
            x = np.where(r.uniform(size=len(x)) < 0.6, m["core"], x)
        return [x]

    def call(a):
        w = a[0].obj
        out = [w.f(a[1]), w.value(a[1])]
        if a[0].model["w"] != "singular":
            out += [w.g(a[1]), w.G(a[1]), w.gradient(a[1]), w.Hessian(a[1])]
        return out

    def ref(a):
        m = a[0]["model"]
        v, g, H = w_ref(m, m["core"], a[1])
        return [v, v] if m["w"] == "singular" else [v, v, g, H, g, H]


@op("move_weight", T, kind="weight", effect=True)
class _:
    def gen(rng, p):
        return {"what": rng.choice(["core", "core", "sd"]), "as": rng.choice(["array", "list", "number"])}

    def make(p, m):
        r = rs(p)
        what = p["what"] if m["sd"] is not None else "core"
        v = r.uniform(0.3, 0.7, len(m["core"])) if what == "core" else r.uniform(1.2, 2, len(m["core"]))
        return [v, what, p["as"]]

    def call(a):
        h, v, what, how = a
        v = v.copy()
        new = v.tolist() if how == "list" else float(v[0]) if how == "number" and len(v) == 1 and what == "core" else v.copy()
        if what == "core":
            h.obj.core = new
            h.model["core"] = v
        else:
            h.obj.supportdomain = new
            h.model["sd"] = v.tolist()

    def ref(a):
        return None


def gen_fit(rng, p):
    return {"n": rng.choice([20, 26, 33]), "rec": rng.choice([0, 1, 2, 3]), "deg": rng.choice([1, 2]), "order": rng.choice([0, 1, 2]), "lay": rng.choice(LAYOUTS)}


def nout(p, m):
    d = len(m["core"])
    if m["w"] == "singular" or p["order"] == 0:
        return 1
    return 1 + d if p["order"] == 1 else 1 + d + d * (d + 1) // 2


@op("moving_least_squares", T, kind="weight", tol=1e-5)
class _:
    gen = gen_fit

    def make(p, m):
        r = rs(p)
        d = len(m["core"])
        X, V = clouddata(p, r, d)
        return [lay(X, p["lay"]) if d > 1 else X, V, point(r, d, X), p["deg"], p["order"], nout(p, m)]

    def call(a):
        h, X, V, x, deg, order, n = a
        return keep(A().moving_least_squares(X, V, w=h.obj, deg=deg, order=order)(x), n)

    def ref(a):
        h, X, V, x, deg, order, n = a
        x = np.atleast_1d(x)
        return ref_fit(X, V, deg, order, h["model"], x, x)[:n]


@op("weighted_least_squares", T, kind="weight", tol=1e-5)
class _:
    gen = gen_fit

    def make(p, m):
        r = rs(p)
        d = len(m["core"])
        X, V = clouddata(p, r, d)
        return [lay(X, p["lay"]) if d > 1 else X, V, point(r, d, X), p["deg"], 0]

    def call(a):
        h, X, V, x, deg, order = a
        return keep(A().weighted_least_squares(X, V, w=h.obj, deg=deg, order=order)(x), 1)

    def ref(a):
        h, X, V, x, deg, order = a
        m = h["model"]
        return ref_fit(X, V, deg, order, m, np.atleast_1d(x), m["core"])[:1]


# ------------------------------------------------------------ long-lived fits
@kind("fit")
class _:
    """A fit function kept by the caller (its input arrays are overwritten
    afterwards when `junk` is set: a fit is what it was at its creation)."""

    def gen(rng):
        return {
            "d": rng.choice([1, 2, 2, 3]), "n": rng.choice([20, 26]), "rec": rng.choice([0, 1, 3]), "deg": rng.choice([1, 2]),
            "order": rng.choice([0, 1, 2]), "junk": rng.random() < 0.4, "lists": rng.random() < 0.2,
        }

    def make(p):
        r = rs(p)
        X, V = clouddata(p, r, p["d"])
        m = {"X": X.copy(), "V": V.copy(), "deg": p["deg"], "order": p["order"], "w": "const", "value": 1.0, "sd": None, "core": np.zeros(p["d"])}
        if p["lists"]:
            f = A().least_squares(X.tolist(), V.tolist(), deg=p["deg"], order=p["order"])
        else:
            f = A().least_squares(X, V, deg=p["deg"], order=p["order"])
        if p["junk"]:
            X[...] = 0.5
            V[...] = -99.0
        return Holder(p, f, m, lambda o: None)


@kind("movingfit")
class _:
    """A moving least squares function shared by its callers."""

    def gen(rng):
        return {**gen_w(rng), "n": rng.choice([20, 26]), "rec": rng.choice([0, 1, 3]), "deg": rng.choice([1, 2]), "order": rng.choice([0, 1, 2]), "w0": rng.random() < 0.2}

    def make(p):
        r = rs(p)
        w, m = make_w(p, r)
        X, V = clouddata(p, r, p["d"])
        m.update({"X": X.copy(), "V": V.copy(), "deg": p["deg"], "order": p["order"]})
        if p["w0"]:
            m.update({"w": "const", "value": 1.0, "sd": None})
            f = A().moving_least_squares(X, V, deg=p["deg"], order=p["order"])
        else:
            f = A().moving_least_squares(X, V, w=w, deg=p["deg"], order=p["order"])
        return Holder(p, f, m, lambda o: {"X": X, "V": V, "core": np.array(w.core)})


def _eval(name, knd):
    @op(name, T, kind=knd, tol=1e-5)
    class _:
        def gen(rng, p):
            return {}

        def make(p, m):
            return [point(rs(p), len(m["core"]), m["X"]), nout(m, m)]

        def call(a):
            return keep(a[0].obj(a[1]), a[2])

        def ref(a):
            m = a[0]["model"]
            x = np.atleast_1d(a[1])
            return ref_fit(m["X"], m["V"], m["deg"], m["order"], m, x, x)[: a[2]]


_eval("fit_value", "fit")
_eval("moving_fit_value", "movingfit")
