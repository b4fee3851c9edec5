"""Jagged arrays, CSR matrices, set operations and graphs (C14)."""
import numpy as np

from .calls import Holder, kind, lay, LAYOUTS, op, rs

T = {"sparse"}


def SP():
    import sigmaepsilon.math.linalg.sparse as m

    return m


def rows_of(p):
    r = rs(p)
    n = p["n"]
    if p["regular"]:
        w = [p["w"]] * n
    else:
        w = [int(x) for x in r.randint(0 if p["empty"] else 1, p["w"] + 1, n)]
        if sum(w) == 0:
            w[0] = 1
    hi = p["hi"]
    return [[int(v) for v in r.randint(-2 if hi > 3 else 0, hi, k)] for k in w]


def gen_rows(rng):
    return {"n": rng.choice([1, 1, 2, 3, 5, 8]), "w": rng.choice([1, 2, 3, 5]), "regular": rng.random() < 0.35, "empty": rng.random() < 0.25, "hi": rng.choice([2, 5, 50])}


def make_jag(rows, how, junk):
    J = SP().JaggedArray
    if how == "lists":
        return J(rows)
    flat = np.array([v for r in rows for v in r], dtype=np.int64)
    cuts = [len(r) for r in rows]
    if how == "ak":
        return J(flat, cuts=np.array(cuts), force_numpy=False)
    return J(flat, cuts=cuts)


def tolist(x):
    """Nested plain lists of whatever container."""
    if hasattr(x, "to_list"):
        return x.to_list()
    if hasattr(x, "tolist"):
        return x.tolist()
    return [tolist(v) if hasattr(v, "__len__") else v for v in x]


def dense(rows):
    m = max(len(r) for r in rows)
    return np.array([r + [0] * (m - len(r)) for r in rows], dtype=float).reshape(len(rows), m)


@kind("jagged")
class _:
    def gen(rng):
        return {**gen_rows(rng), "how": rng.choice(["lists", "flat", "flat", "ak"])}

    def make(p):
        rows = rows_of(p)
        obj = make_jag(rows, p["how"], False)
        return Holder(p, obj, {"rows": rows}, lambda o: tolist(o.to_array()))


@op("jagged_query", T, kind="jagged", own=False, tol=0)
class _:
    Q = ["list", "widths", "size", "len", "jagged", "shape", "flatten", "flatten_cuts", "csr", "scipy", "row", "numpy", "ak", "array"]

    def gen(rng, p):
        return {"q": rng.choice(["list", "widths", "size", "len", "jagged", "shape", "flatten", "flatten_cuts", "csr", "scipy", "row", "numpy", "ak", "array"]), "i": rng.randrange(50)}

    def make(p, m):
        return [p["q"], p["i"] % len(m["rows"])]

    def call(a):
        o, q, i = a[0].obj, a[1], a[2]
        if q == "list":
            return o.to_list()
        if q == "widths":
            return np.array(o.widths())
        if q == "size":
            return int(o.size)
        if q == "len":
            return len(o)
        if q == "jagged":
            return bool(o.is_jagged())
        if q == "shape":
            s = o.shape
            return [int(s[0]), np.broadcast_to(np.asarray(s[1]), (len(o),)).copy()]
        if q == "flatten":
            return np.array(o.flatten())
        if q == "flatten_cuts":
            c, f = o.flatten(return_cuts=True)
            return [np.array(c), np.array(f)]
        if q == "csr":
            return o.to_csr().to_numpy()
        if q == "scipy":
            return o.to_scipy().toarray()
        if q == "row":
            return [int(v) for v in o[i]]
        if q == "numpy":
            return np.array(o.to_numpy(), dtype=float)
        if q == "ak":
            return tolist(o.to_ak())
        return tolist(o.to_array())

    def ref(a):
        rows, q, i = a[0]["model"]["rows"], a[1], a[2]
        w = np.array([len(r) for r in rows])
        flat = np.array([v for r in rows for v in r], dtype=np.int64)
        if q in ("list", "ak", "array"):
            return [list(r) for r in rows]
        return {
            "widths": w, "size": int(w.sum()), "len": len(rows), "jagged": len(set(w.tolist())) > 1,
            "shape": [len(rows), w], "flatten": flat, "flatten_cuts": [w, flat], "csr": dense(rows), "scipy": dense(rows),
            "row": list(rows[i]), "numpy": dense(rows),
        }[q]


@op("jagged_unique", T, kind="jagged")
class _:
    def gen(rng, p):
        return {"fl": [rng.random() < 0.5 for _ in range(3)], "via": rng.choice(["method", "np", "unique2d"])}

    def make(p, m):
        return [p["fl"], p["via"]]

    def call(a):
        o, fl, via = a[0].obj, a[1], a[2]
        kw = dict(zip(("return_index", "return_inverse", "return_counts"), fl))
        kw = {k: v for k, v in kw.items() if v}
        if via == "method":
            out = o.unique(**kw)
        elif via == "np":
            out = np.unique(o, **kw)
        else:
            from sigmaepsilon.math.arraysetops import unique2d

            out = unique2d(o, **kw)
        out = list(out) if kw else [out]
        rows = a[0].model["rows"]
        k = 1
        if fl[0]:
            out[k] = positions(out[k], rows)
            k += 1
        if fl[1]:
            out[k] = tolist(out[k])
        return out

    def ref(a):
        rows, fl = a[0]["model"]["rows"], a[1]
        return uniq(rows, fl)


def positions(d, rows):
    """Positions as (row, column) sorted, from either addressing."""
    at = [(i, j) for i, r in enumerate(rows) for j in range(len(r))]
    out = {}
    for k in d.keys():
        v = np.asarray(d[k])
        out[int(k)] = sorted([list(at[int(x)]) if v.ndim == 1 else [int(y) for y in x] for x in v])
    return out


def uniq(rows, fl):
    vals = sorted({v for r in rows for v in r})
    out = [np.array(vals)]
    if fl[0]:
        out.append({v: [[i, j] for i, r in enumerate(rows) for j, x in enumerate(r) if x == v] for v in vals})
    if fl[1]:
        out.append([[vals.index(v) for v in r] for r in rows])
    if fl[2]:
        out.append(np.array([sum(r.count(v) for r in rows) for v in vals]))
    return out


@op("jagged_stack", T, kind="jagged")
class _:
    def gen(rng, p):
        return {"f": rng.choice(["vstack", "concatenate"]), "parts": [gen_rows(rng) for _ in range(rng.randint(1, 3))], "at": rng.randrange(4)}

    def make(p, m):
        others = [rows_of({**q, "s": p["s"] + i}) for i, q in enumerate(p["parts"])]
        return [p["f"], others, min(p["at"], len(others))]

    def call(a):
        h, f, others, at = a
        parts = [make_jag(r, "flat", False) for r in others]
        parts.insert(at, h.obj)
        return getattr(np, f)(parts).to_list()

    def ref(a):
        h, f, others, at = a
        parts = list(others)
        parts.insert(at, h["model"]["rows"])
        return [list(r) for q in parts for r in q]


@op("jagged_assign", T, kind="jagged", effect=True)
class _:
    """Item assignment, where the stored data is dense."""

    def gen(rng, p):
        return {"i": rng.randrange(50), "j": rng.randrange(50), "v": rng.randint(-9, 9)}

    def make(p, m):
        return [p["i"] % len(m["rows"]), p["j"], p["v"]]

    def call(a):
        h, i, j, v = a
        if isinstance(h.obj.to_array(), np.ndarray):
            j %= len(h.model["rows"][i])
            h.obj[i, j] = v
            h.model["rows"][i][j] = v

    def ref(a):
        return None


@op("jagged_blocks", T)
class _:
    """A list of two dimensional arrays is the list of all their rows."""

    def gen(rng):
        return {"shp": [[rng.randint(1, 3), rng.randint(1, 4)] for _ in range(rng.randint(2, 4))]}

    def make(p):
        r = rs(p)
        return [[r.randint(0, 9, s) for s in p["shp"]]]

    def call(a):
        from sigmaepsilon.math.linalg.sparse.jaggedarray import get_data

        return tolist(get_data(a[0], fallback=True))

    def ref(a):
        return [[int(v) for v in row] for b in a[0] for row in b]


# ------------------------------------------------------------------ csr
@kind("csr")
class _:
    def gen(rng):
        return {"n": rng.randint(1, 6), "m": rng.randint(1, 6), "how": rng.choice(["scipy", "coo", "dense", "raw", "bare", "eye"])}

    def make(p):
        import scipy.sparse as ss

        r = rs(p)
        D = r.randint(-4, 5, (p["n"], p["m"])) * (r.uniform(0, 1, (p["n"], p["m"])) < 0.5)
        D = D.astype(float)
        C = SP().csr_matrix
        src = []
        if p["how"] == "eye":
            D = np.eye(p["n"])
            obj = C.eye(p["n"])
        elif p["how"] == "dense":
            src = [D.copy()]
            obj = C(src[0])
        elif p["how"] == "raw":
            q = ss.csr_matrix(D)
            src = [q.data, q.indices, q.indptr]
            obj = C(q.data, q.indices, q.indptr, D.shape)
        elif p["how"] == "bare":
            # the number of columns is not given: it follows from the indices
            D[r.randint(p["n"]), -1] = 3.0
            q = ss.csr_matrix(D)
            src = [q.data, q.indices, q.indptr]
            obj = C(q.data, q.indices, q.indptr)
        elif p["how"] == "coo":
            q = ss.coo_matrix(D)
            src = [q.data, q.row, q.col]
            obj = C(q)
        else:
            q = ss.csr_matrix(D)
            src = [q.data, q.indices, q.indptr]
            obj = C(q)
        full = p["how"] == "dense"
        cols = [[j for j in range(D.shape[1]) if full or D[i, j] != 0] for i in range(D.shape[0])]
        h = Holder(p, obj, {"D": D, "cols": cols}, lambda o: [o.data, o.indices, o.indptr, list(o.shape)])
        h.src = src
        return h

    def twin(rng, p):
        return {**p, "how": rng.choice(["scipy", "coo", "dense", "raw", "bare"]), "s": p["s"] + rng.randint(0, 1)}


@op("csr_source", T, kind="csr")
class _:
    """The caller reuses the arrays a matrix was made of."""

    def gen(rng, p):
        return {"v": rng.randint(-9, 9)}

    def make(p, m):
        return [p["v"]]

    def call(a):
        for s in a[0].src:
            s[...] = np.array(a[1]).astype(s.dtype)
        return a[0].obj.to_numpy()

    def ref(a):
        return a[0]["model"]["D"]


@op("csr_query", T, kind="csr", own=False)
class _:
    def gen(rng, p):
        return {"q": rng.choice(["numpy", "scipy", "row", "row", "shape", "rt", "repr"]), "i": rng.randrange(50)}

    def make(p, m):
        return [p["q"], p["i"] % len(m["D"])]

    def call(a):
        o, q, i = a[0].obj, a[1], a[2]
        if q == "numpy":
            return o.to_numpy()
        if q == "scipy":
            return o.to_scipy().toarray()
        if q == "shape":
            return [int(x) for x in o.shape]
        if q == "repr":
            return repr(o)
        if q == "rt":
            return SP().csr_matrix(o.to_scipy()).to_numpy()
        return [np.array(o.row(i)), np.array(o.irow(i))]

    def ref(a):
        D, cols, q, i = a[0]["model"]["D"], a[0]["model"]["cols"], a[1], a[2]
        if q == "shape":
            return list(D.shape)
        if q == "repr":
            return f"{D.shape[0]}x{D.shape[1]} CSR matrix of {sum(len(c) for c in cols)} values."
        if q == "row":
            return [D[i, cols[i]], np.array(cols[i], dtype=int)]
        return D


@op("unique2d", T)
class _:
    def gen(rng):
        return {"n": rng.randint(1, 6), "m": rng.randint(1, 5), "hi": rng.choice([2, 5, 60]), "fl": [rng.random() < 0.5 for _ in range(3)], "lay": rng.choice(LAYOUTS)}

    def make(p):
        return [lay(rs(p).randint(-2, p["hi"], (p["n"], p["m"])), p["lay"]), p["fl"]]

    def call(a):
        from sigmaepsilon.math.arraysetops import unique2d

        kw = {k: v for k, v in zip(("return_index", "return_inverse", "return_counts"), a[1]) if v}
        out = unique2d(a[0], **kw)
        out = list(out) if kw else [out]
        if a[1][0]:
            out[1] = positions(out[1], a[0].tolist())
        return out

    def ref(a):
        out = uniq(a[0].tolist(), a[1])
        if a[1][1]:
            k = 1 + int(a[1][0])
            out[k] = np.array(out[k])
        return out


# ------------------------------------------------------------------ graphs
def bfs(adj, root):
    lev = {root: 0}
    fr, d = [root], 0
    while fr:
        d += 1
        nx = []
        for u in fr:
            for v in adj[u]:
                if v not in lev:
                    lev[v] = d
                    nx.append(v)
        fr = nx
    out = {}
    for v, k in lev.items():
        out.setdefault(k, []).append(v)
    return {k: np.array(sorted(v)) for k, v in out.items()}


@kind("graph")
class _:
    def gen(rng):
        return {"n": rng.choice([1, 2, 3, 5, 8, 12]), "p": rng.choice([0.1, 0.3, 0.6]), "con": rng.random() < 0.7, "perm": rng.random() < 0.5, "off": rng.choice([0, 0, 3])}

    def twin(rng, p):
        return {**p, "s": p["s"] + 1, "off": rng.choice([0, 3])}

    def make(p):
        from sigmaepsilon.math.graph import Graph

        r = rs(p)
        n = p["n"]
        E = [(i, j) for i in range(n) for j in range(i) if r.uniform() < p["p"]]
        if p["con"]:
            E += [(i, int(r.randint(i))) for i in range(1, n)]
        E = sorted(set(E))
        # nodes are addressed by their position, whatever they are called
        lab = [int(x) + p["off"] for x in (r.permutation(n) if p["perm"] else range(n))]
        g = Graph()
        g.add_nodes_from(lab)
        g.add_edges_from((lab[i], lab[j]) for i, j in E)
        return Holder(p, g, {"n": n, "E": [list(e) for e in E], "lab": lab}, lambda o: [sorted(map(sorted, o.edges)), list(o.nodes)])


def adj_of(m):
    adj = [[] for _ in range(m["n"])]
    for i, j in m["E"]:
        adj[i].append(j)
        adj[j].append(i)
    return adj


@op("level_structure", T, kind="graph")
class _:
    def gen(rng, p):
        return {"root": rng.randrange(60), "via": rng.choice(["method", "csr"])}

    def make(p, m):
        return [p["root"] % m["n"], p["via"]]

    def call(a):
        h, root, via = a
        if via == "method":
            out = h.obj.rooted_level_structure(root)
        else:
            from sigmaepsilon.math.graph import rooted_level_structure

            out = rooted_level_structure(h.obj.adjacency_matrix(to_csr=True), root)
        return {int(k): np.sort(np.asarray(out[k])) for k in out.keys()}

    def ref(a):
        return bfs(adj_of(a[0]["model"]), a[1])


@op("peripheral_nodes", T, kind="graph")
class _:
    """The last node returned sees the others on its deepest level, and no
    node there has a deeper, or as deep but slimmer, level structure."""

    def gen(rng, p):
        return {}

    def make(p, m):
        return []

    def call(a):
        out = [int(x) for x in a[0].obj.pseudo_peripheral_nodes()]
        adj = adj_of(a[0].model)
        L = bfs(adj, out[-1])
        deep = sorted(int(x) for x in L[len(L) - 1])
        if sorted(out[:-1]) != deep:
            return f"deepest level of {out[-1]} is {deep}, not {out[:-1]}"
        me = (len(L), max(len(v) for v in L.values()))
        for v in deep:
            K = bfs(adj, v)
            if len(K) > me[0] or (len(K) == me[0] and max(len(x) for x in K.values()) < me[1]):
                return f"{v} is more peripheral than {out[-1]}"
        if len(L) < len(bfs(adj, 0)):
            return f"{out[-1]} is less peripheral than the first node"
        return "ok"

    def ref(a):
        return "ok"


@op("graph_edit", T, kind="graph", effect=True)
class _:
    def gen(rng, p):
        return {"u": rng.randrange(60), "v": rng.randrange(60), "what": rng.choice(["add", "add", "remove", "node", "swap", "swap"])}

    def make(p, m):
        return [p["u"] % m["n"], p["v"] % m["n"], p["what"]]

    def call(a):
        h, u, v, what = a
        m = h.model
        if what == "node":
            m["lab"] = m["lab"] + [max(m["lab"]) + 1]
            h.obj.add_node(m["lab"][-1])
            h.obj.add_edge(m["lab"][-1], m["lab"][u])
            m["E"] = m["E"] + [[m["n"], u]]
            m["n"] += 1
        elif what == "add" and u != v:
            h.obj.add_edge(m["lab"][u], m["lab"][v])
            if [u, v] not in m["E"] and [v, u] not in m["E"]:
                m["E"] = m["E"] + [[u, v]]
        elif what == "swap" and m["E"]:
            # as many nodes and edges as before
            free = [[i, j] for i in range(m["n"]) for j in range(i) if [i, j] not in m["E"] and [j, i] not in m["E"]]
            if free:
                x, y = m["E"][u % len(m["E"])], free[v % len(free)]
                h.obj.remove_edge(*(m["lab"][k] for k in x))
                h.obj.add_edge(*(m["lab"][k] for k in y))
                m["E"] = [e for e in m["E"] if e != x] + [y]
        elif what == "remove" and ([u, v] in m["E"] or [v, u] in m["E"]):
            h.obj.remove_edge(m["lab"][u], m["lab"][v])
            m["E"] = [e for e in m["E"] if e not in ([u, v], [v, u])]

    def ref(a):
        return None


@op("adjacency", T, kind="graph")
class _:
    def gen(rng, p):
        return {"csr": rng.random() < 0.5}

    def make(p, m):
        return [p["csr"]]

    def call(a):
        M = a[0].obj.adjacency_matrix(to_csr=a[1])
        return M.to_numpy() if a[1] else np.asarray(M.todense(), dtype=float)

    def ref(a):
        m = a[0]["model"]
        D = np.zeros((m["n"], m["n"]))
        for i, j in m["E"]:
            D[i, j] = D[j, i] = 1
        return D


@op("triangles", T)
class _:
    """Lower and upper halves of sparse triplets."""

    def gen(rng):
        return {"n": rng.choice([0, 1, 4, 9]), "f": rng.choice(["lower_spdata", "upper_spdata"])}

    def make(p):
        r = rs(p)
        return [r.uniform(-2, 2, p["n"]), r.randint(0, 4, p["n"]), r.randint(0, 4, p["n"]), p["f"]]

    def call(a):
        import sigmaepsilon.math.linalg.sparse.utils as m

        return list(getattr(m, a[3])(a[0], a[1], a[2]))

    def ref(a):
        keep = [k for k in range(len(a[0])) if (a[1][k] >= a[2][k] if a[3][0] == "l" else a[2][k] >= a[1][k])]
        return [a[0][keep], a[1][keep], a[2][keep]]


@op("jagged_refused", T, mutable=False)
class _:
    """Data that is no table of rows is refused."""

    def gen(rng):
        return {"how": rng.choice(["3d", "nocuts", "short", "long", "negative", "number", "none", "text", "dict", "mixed"]), "n": rng.randint(2, 6)}

    def make(p):
        return [p["how"], p["n"]]

    def call(a):
        J = SP().JaggedArray
        how, n = a
        x = np.arange(2 * n)
        try:
            if how == "3d":
                J(np.zeros((n, 2, 2)))
            elif how == "nocuts":
                J(x)
            elif how in ("short", "long", "negative"):
                J(x, cuts={"short": [n, n - 1], "long": [n, n + 1], "negative": [2 * n + 1, -1]}[how])
            elif how == "mixed":
                np.vstack([J([[1, 2], [3]]), np.zeros((n, 2))])
            else:
                J({"number": n, "none": None, "text": "ab" * n, "dict": {1: n}}[how])
        except (AssertionError, ValueError, TypeError):
            return "refused"
        return "accepted"

    def ref(a):
        return "refused"
