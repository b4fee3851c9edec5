"""Symbolic functions and relations (C11).

Expressions are nested lists; the reference evaluates value, gradient and
Hessian by second order forward differentiation, without sympy."""
import math
import operator

import numpy as np

from .calls import Holder, kind, op, rs

T = {"func"}
NAMES = ["x", "y", "z", "x1", "x2", "x10", "t", "u", "alpha", "w_1"]


def FN():
    import sigmaepsilon.math.function as m

    return m


# ------------------------------------------------------------- expressions
def gen_poly(rng, nv, deg=3, terms=(1, 4), irr=0.1):
    """Sum of monomials: list of [coefficient, [exponents]]."""
    out = []
    for _ in range(rng.randint(*terms)):
        e = [0] * nv
        for _ in range(rng.randint(0, deg)):
            e[rng.randrange(nv)] += 1
        r = rng.random()
        if r < irr:
            c = rng.choice(["pi", "sqrt2"])
        elif r < 0.5:
            c = rng.choice([1, 2, 3, -1, -2, 5, 10])
        else:
            c = rng.choice([0.5, -1.25, 2.75, 0.1])
        out.append([c, e])
    return out


def num(c):
    return {"pi": math.pi, "sqrt2": math.sqrt(2)}.get(c, c)


def gen_fun(rng, nv=None, lin=False):
    nv = nv or rng.choice([1, 2, 2, 3, 3, 4])
    names = rng.sample(NAMES, nv)
    q = gen_poly(rng, nv, deg=1 if lin else 3, terms=(1, 5) if lin else (1, 4))
    wrap = None if lin or rng.random() < 0.75 else rng.choice(["sin", "exp", "square"])
    shape = rng.choice(["sum", "sum", "factored"]) if not lin else "sum"
    return {"names": names, "poly": q, "wrap": wrap, "shape": shape, "order": rng.sample(range(nv), nv), "how": rng.choice(["str", "str", "strsym", "sym", "symtuple", "update"])}


def twin_f(rng, f):
    """A function that is easily mistaken for `f`: the same text with its
    variables in another order or given in another way, or one that differs
    in a detail of its text only."""
    g = {**f, "poly": [[c, list(e)] for c, e in f["poly"]]}
    for w in rng.choice([["order"], ["order"], ["how"], ["order", "how"], ["rename"], ["coef"]]):
        if w == "order":
            g["order"] = rng.sample(f["order"], len(f["order"]))
        elif w == "how":
            g["how"] = rng.choice(["str", "strsym", "sym", "symtuple", "update"])
        elif w == "rename":
            g["names"] = rng.sample(f["names"], len(f["names"]))
        else:
            t = g["poly"][rng.randrange(len(g["poly"]))]
            t[0] = -t[0] if not isinstance(t[0], str) else "pi" if t[0] == "sqrt2" else "sqrt2"
    return g


def twin_call(rng, c):
    return {"f": twin_f(rng, c["f"])}


def mono_str(c, e, names):
    cs = {"pi": "pi", "sqrt2": "sqrt(2)"}.get(c, repr(c))
    fs = [cs if not cs.startswith("-") else "(" + cs + ")"]
    for n, k in zip(names, e):
        if k == 1:
            fs.append(n)
        elif k:
            fs.append(f"{n}**{k}")
    return "*".join(fs)


def to_str(f):
    s = " + ".join(mono_str(c, e, f["names"]) for c, e in f["poly"])
    if f["shape"] == "factored":
        s = f"2*({s}) - ({s})"
    if f["wrap"] == "square":
        return f"({s})**2"
    if f["wrap"]:
        return f"{f['wrap']}({s})"
    return s


class D2:
    """Value, gradient, Hessian."""

    def __init__(self, v, g, h):
        self.v, self.g, self.h = v, g, h

    def __add__(self, o):
        return D2(self.v + o.v, self.g + o.g, self.h + o.h)

    def __mul__(self, o):
        return D2(self.v * o.v, self.v * o.g + o.v * self.g, self.v * o.h + o.v * self.h + np.outer(self.g, o.g) + np.outer(o.g, self.g))

    def chain(self, f, d1, d2):
        return D2(f, d1 * self.g, d1 * self.h + d2 * np.outer(self.g, self.g))


def evaluate(f, env, order):
    """Value, gradient, Hessian with respect to the names in `order`."""
    n = len(order)

    def var(name):
        g = np.zeros(n)
        if name in order:
            g[order.index(name)] = 1.0
        return D2(float(env[name]), g, np.zeros((n, n)))

    def const(c):
        return D2(float(c), np.zeros(n), np.zeros((n, n)))

    tot = const(0)
    for c, e in f["poly"]:
        t = const(num(c))
        for name, k in zip(f["names"], e):
            for _ in range(k):
                t = t * var(name)
        tot = tot + t
    w = f["wrap"]
    if w == "square":
        tot = tot * tot
    elif w == "sin":
        tot = tot.chain(math.sin(tot.v), math.cos(tot.v), -math.sin(tot.v))
    elif w == "exp":
        x = math.exp(tot.v)
        tot = tot.chain(x, x, x)
    return tot


def declared(f):
    return [f["names"][i] for i in f["order"]]


def build(f, cls=None, relop=None):
    """The library's function for the expression."""
    import sympy as sy

    F = cls or FN().Function
    s = to_str(f)
    names = declared(f)
    kw = {} if relop is None else dict(relop)
    how = f["how"]
    if how == "str":
        return F(s, variables=names, **kw)
    if how == "strsym":
        return F(s, variables=sy.symbols(names, real=True), **kw)
    if how == "update" and relop is None:
        g = F("q + 2*r", variables=["q", "r"])
        g.update(s, variables=names)
        return g
    syms = {n: sy.Symbol(n, positive=True) if how == "symtuple" else sy.Symbol(n) for n in names}
    e = sy.sympify(s, locals=syms)
    return F(e, variables=(tuple if how == "symtuple" else list)(syms[n] for n in names), **kw)


def point(r, n, ints=False):
    return [int(v) for v in r.randint(-4, 5, n)] if ints else [float(v) for v in np.round(r.uniform(-1.2, 1.2, n), 3)]


def full(x, n):
    """Nested lists as returned by the derivatives, as arrays."""
    return np.array(x, dtype=float)


def look(F):
    names = [str(v) for v in F.variables]
    pt = [0.3 + 0.2 * k for k in range(len(names))]
    return {"names": names, "value": float(F(pt)), "grad": [float(v) for v in np.ravel(F.g(pt))], "d": F.dimension, "lin_type": bool(F.is_symbolic), "type": type(F).__name__}


@kind("func")
class _:
    def gen(rng):
        return {"f": gen_fun(rng, lin=rng.random() < 0.3)}

    def twin(rng, p):
        return {**p, "f": twin_f(rng, p["f"])}

    def make(p):
        f = p["f"]
        return Holder(p, build(f), {"f": f, "order": declared(f), "fixed": {}}, look)


def at(m, pt):
    env = dict(zip(m["order"], pt))
    env.update(m["fixed"])
    return evaluate(m["f"], env, m["order"])


@op("f_value", T, kind="func", mutable=False)
class _:
    def gen(rng, p):
        return {"how": rng.choice(["list", "tuple", "array", "ints", "call_f"])}

    def make(p, m):
        pt = point(rs(p), len(m["order"]), p["how"] == "ints")
        return [np.array(pt) if p["how"] == "array" else tuple(pt) if p["how"] == "tuple" else pt, p["how"]]

    def call(a):
        F = a[0].obj
        return float(F.f(a[1]) if a[2] == "call_f" else F(a[1]))

    def ref(a):
        return at(a[0]["model"], a[1]).v


@op("f_grad", T, kind="func", mutable=False)
class _:
    def gen(rng, p):
        return {"hess": rng.random() < 0.5}

    def make(p, m):
        return [point(rs(p), len(m["order"])), p["hess"]]

    def call(a):
        F = a[0].obj
        return np.array(F.G(a[1]) if a[2] else F.g(a[1]), dtype=float)

    def ref(a):
        t = at(a[0]["model"], a[1])
        return t.h if a[2] else t.g


@op("f_many", T, kind="func", mutable=False)
class _:
    """Vectorised evaluation over many points."""

    def gen(rng, p):
        return {"n": rng.randint(1, 6)}

    def make(p, m):
        r = rs(p)
        return [np.array([point(r, p["n"]) for _ in m["order"]])]

    def call(a):
        v = np.asarray(a[0].obj(a[1]), dtype=float)
        return np.broadcast_to(v, (a[1].shape[1],)).copy()

    def ref(a):
        return np.array([at(a[0]["model"], a[1][:, k]).v for k in range(a[1].shape[1])])


def expand(m):
    """Polynomial in the current variables: {exponents: coefficient}."""
    f = m["f"]
    out = {}
    for c, e in f["poly"]:
        c = num(c)
        ex = [0] * len(m["order"])
        for n, k in zip(f["names"], e):
            if n in m["fixed"]:
                c = c * m["fixed"][n] ** k
            else:
                ex[m["order"].index(n)] += k
        out[tuple(ex)] = out.get(tuple(ex), 0.0) + c
    return {k: v for k, v in out.items() if abs(v) > 1e-12}


@op("f_facts", T, kind="func", mutable=False)
class _:
    """Variables, dimension, linearity."""

    def gen(rng, p):
        return {}

    def make(p, m):
        return []

    def call(a):
        F = a[0].obj
        lin = None if a[0].model["f"]["wrap"] else bool(F.is_linear)
        return [[str(v) for v in F.variables], int(F.dimension), bool(F.is_symbolic), lin]

    def ref(a):
        m = a[0]["model"]
        q = expand(m)
        lin = None if m["f"]["wrap"] else all(k <= 1 for e in q for k in e)
        return [list(m["order"]), len(m["order"]), True, lin]


@op("f_coeffs", T, kind="func", mutable=False, tol=1e-9)
class _:
    def gen(rng, p):
        return {"norm": rng.random() < 0.6, "lin": rng.random() < 0.5}

    def make(p, m):
        return [p["norm"], p["lin"]]

    def call(a):
        F = a[0].obj
        m = a[0].model
        if m["f"]["wrap"]:
            return "not a polynomial"
        d = F.linear_coefficients(normalize=a[1]) if a[2] else F.coefficients(normalize=a[1])
        out = {}
        for k, v in d.items():
            pw = k.as_powers_dict()
            e = [0] * len(m["order"])
            c = float(v)
            for b, x in pw.items():
                if str(b) in m["order"]:
                    e[m["order"].index(str(b))] += int(x)
                else:
                    c *= float(b**x)
            key = str(tuple(e))
            out[key] = out.get(key, 0.0) + c
        return {k: v for k, v in sorted(out.items()) if abs(v) > 1e-12}

    def ref(a):
        m = a[0]["model"]
        if m["f"]["wrap"]:
            return "not a polynomial"
        q = expand(m)
        if a[2]:
            q = {e: c for e, c in q.items() if sum(1 for k in e if k) <= 1}
        return {str(e): c for e, c in sorted(q.items(), key=lambda t: str(t[0]))}


def gen_subs(rng, p):
    return {"frac": rng.choice([0.0, 0.5, 0.5, 1.0]), "names": rng.choice(["str", "sym", "none"]), "perm": rng.random() < 0.6}


def make_subs(p, m):
    r = rs(p)
    n = len(m["order"])
    k = max(1, int(round(p["frac"] * n)))
    if p["names"] == "none":
        vs = m["order"][:k]
    else:
        vs = [m["order"][i] for i in (r.permutation(n)[:k] if p["perm"] else range(k))]
    return [[float(v) for v in np.round(r.uniform(-1, 1, k), 2)], vs, p["names"], [float(v) for v in np.round(r.uniform(-1, 1, n), 3)]]


def subs_args(F, vals, vs, names):
    if names == "none":
        return (vals,)
    if names == "sym":
        by = {str(v): v for v in F.variables}
        return (vals, [by[v] for v in vs])
    return (vals, vs)


def after_subs(m, vals, vs):
    left = [n for n in m["order"] if n not in vs]
    return {"f": m["f"], "fixed": {**m["fixed"], **dict(zip(vs, vals))}, "order": left}


@op("f_subs", T, kind="func", mutable=False)
class _:
    """Substitution gives a function of the remaining variables and leaves the
    original alone."""

    gen = gen_subs

    def make(p, m):
        return make_subs(p, m)

    def call(a):
        F = a[0].obj
        _, vals, vs, names, pt = a
        G = F.subs(*subs_args(F, vals, vs, names))
        left = [n for n in a[0].model["order"] if n not in vs]
        if not left:
            return [float(G(pt)), sorted(str(v) for v in G.variables) == sorted(vs)]
        return [float(G(pt[: len(left)])), [str(v) for v in G.variables] == left]

    def ref(a):
        m = a[0]["model"]
        _, vals, vs, names, pt = a
        m2 = after_subs(m, vals, vs)
        env = dict(m2["fixed"])
        env.update(zip(m2["order"], pt))
        return [evaluate(m["f"], env, m2["order"]).v, True]


@op("f_subs_inplace", T, kind="func", mutable=False, effect=True)
class _:
    gen = gen_subs

    def make(p, m):
        a = make_subs(p, m)
        k = min(len(a[0]), len(m["order"]) - 1)
        return [a[0][:k], a[1][:k], a[2], a[3]]

    def call(a):
        h = a[0]
        F = h.obj
        _, vals, vs, names, pt = a
        if not vs:
            return 0.0
        G = F.subs(*subs_args(F, vals, vs, names), inplace=True)
        h.model = after_subs(h.model, vals, vs)
        if G is not F:
            return None
        return float(F(pt[: len(h.model["order"])]))

    def ref(a):
        m = a[0]["model"]
        _, vals, vs, names, pt = a
        if not vs:
            return 0.0
        m2 = after_subs(m, vals, vs)
        return at(m2, pt[: len(m2["order"])]).v


@op("f_update", T, kind="func", mutable=False, effect=True)
class _:
    """The same object is given another expression."""

    def gen(rng, p):
        f = gen_fun(rng)
        f["how"] = "str"
        return {"f": f}

    def make(p, m):
        return [p["f"], [float(v) for v in np.round(rs(p).uniform(-1, 1, len(p["f"]["names"])), 3)]]

    def call(a):
        h, f, pt = a
        names = declared(f)
        h.obj.update(to_str(f), variables=names)
        h.p = {**h.p, "f": f}
        h.model = {"f": f, "order": names, "fixed": {}}
        return [float(h.obj(pt)), np.array(h.obj.g(pt), dtype=float)]

    def ref(a):
        _, f, pt = a
        t = evaluate(f, dict(zip(declared(f), pt)), declared(f))
        return [t.v, t.g]


@op("f_simplify", T, kind="func", mutable=False, effect=True)
class _:
    def gen(rng, p):
        return {}

    def make(p, m):
        return [point(rs(p), len(m["order"]))]

    def call(a):
        a[0].obj.simplify()
        return float(a[0].obj(a[1]))

    def ref(a):
        return at(a[0]["model"], a[1]).v


@op("f_latex", T, kind="func", mutable=False)
class _:
    """Its LaTeX mentions the variables it depends on, and no others."""

    def gen(rng, p):
        return {}

    def make(p, m):
        return []

    def call(a):
        import sympy as sy

        F, m = a[0].obj, a[0].model
        return F.to_latex() == sy.latex(F.expr)

    def ref(a):
        return True


# ------------------------------------------------------------- stateless
@op("build_eval", T, mutable=False)
class _:
    """Construction and evaluation in one go (possibly concurrent)."""

    def gen(rng):
        return {"f": gen_fun(rng)}

    twin = twin_call

    def make(p):
        return [p["f"], point(rs(p), len(p["f"]["names"]))]

    def call(a):
        f, pt = a
        F = build(f)
        return [float(F(pt)), np.array(F.g(pt), dtype=float), np.array(F.G(pt), dtype=float), [str(v) for v in F.variables]]

    def ref(a):
        f, pt = a
        t = evaluate(f, dict(zip(declared(f), pt)), declared(f))
        return [t.v, t.g, t.h, declared(f)]


@op("undeclared", T, mutable=False)
class _:
    """Without declared variables the order is unspecified, but it is the one
    that `variables` reports."""

    def gen(rng):
        f = gen_fun(rng)
        f["poly"].append([3, [4] + [0] * (len(f["names"]) - 1)])
        return {"f": f}

    twin = twin_call

    def make(p):
        return [p["f"], point(rs(p), len(p["f"]["names"]))]

    def call(a):
        import sympy as sy

        f, pt = a
        env = dict(zip(f["names"], pt))
        F = FN().Function(to_str(f) if f["how"].startswith("str") else sy.sympify(to_str(f)))
        order = [str(v) for v in F.variables]
        x = [env[n] for n in order]
        g = dict(zip(order, np.array(F.g(x), dtype=float)))
        return [float(F(x)), {n: float(g.get(n, 0.0)) for n in f["names"]}, len(order) == F.dimension]

    def ref(a):
        f, pt = a
        t = evaluate(f, dict(zip(f["names"], pt)), f["names"])
        return [t.v, {n: float(t.g[j]) for j, n in enumerate(f["names"])}, True]


@op("extra_variable", T, mutable=False)
class _:
    """Declared variables that do not appear in the expression."""

    def gen(rng):
        return {"f": gen_fun(rng, nv=rng.choice([1, 2])), "pos": rng.randint(0, 2)}

    def twin(rng, c):
        return {"f": twin_f(rng, c["f"]), "pos": rng.randint(0, 2)}

    def make(p):
        f = p["f"]
        names = declared(f)
        names.insert(min(p["pos"], len(names)), "zz")
        return [f, names, point(rs(p), len(names))]

    def call(a):
        f, names, pt = a
        F = FN().Function(to_str(f), variables=names)
        return [float(F(pt)), np.array(F.g(pt), dtype=float), np.array(F.G(pt), dtype=float)]

    def ref(a):
        f, names, pt = a
        t = evaluate(f, dict(zip(names, pt)), names)
        return [t.v, t.g, t.h]


@op("numeric_function", T, mutable=False)
class _:
    """Functions made of callables pass calls through."""

    def gen(rng):
        return {"two": rng.random() < 0.5, "kw": rng.random() < 0.5, "hess": rng.random() < 0.5, "dk": rng.choice(["d", "dim", "dimension"])}

    def make(p):
        r = rs(p)
        return [p["two"], p["kw"], p["hess"], p["dk"], float(r.uniform(-2, 2)), float(r.uniform(-2, 2))]

    def call(a):
        two, kw, hess, dk, x, y = a
        f0 = (lambda u, v: u * u + v) if two else (lambda w: w[0] * w[0] + w[1])
        f1 = lambda u, v: np.array([2 * u, 1.0])  # noqa: E731
        f2 = (lambda u, v: np.array([[2.0, 0], [0, 0]])) if hess else None
        if kw:
            k = {"value": f0, "gradient": f1, dk: 2}
            if hess:
                k["Hessian"] = f2
            F = FN().Function(**k)
        else:
            F = FN().Function(f0, f1, f2, **{dk: 2})
        try:
            F.coefficients()
            refused = False
        except TypeError:
            refused = True
        return [float(F(x, y) if two else F([x, y])), F.g(x, y), F.G(x, y) if hess else None, bool(F.is_symbolic), bool(F.is_linear), int(F.dimension), refused]

    def ref(a):
        two, kw, hess, dk, x, y = a
        return [x * x + y, np.array([2 * x, 1.0]), np.array([[2.0, 0], [0, 0]]) if hess else None, False, not hess, 2, True]


# ------------------------------------------------------------- relations
OPS5 = {"=": operator.eq, ">": operator.gt, ">=": operator.ge, "<": operator.lt, "<=": operator.le}


@op("relation", T, mutable=False)
class _:
    """A relation holds exactly where its definition says."""

    def gen(rng):
        f = gen_fun(rng, nv=rng.choice([1, 2, 3]))
        f["wrap"] = None
        f["poly"] = [[c if isinstance(c, int) else 2, e] for c, e in f["poly"]]
        return {"f": f, "rel": rng.choice(sorted(OPS5)), "def": rng.choice(["infix", "infix", "op", "operator", "op_str", "callable", "enum", "cls"]), "rhs": rng.randint(-6, 6), "rv": rng.random() < 0.4}

    def twin(rng, c):
        r = rng.random()
        if r < 0.3:
            return {"rel": rng.choice(sorted(OPS5))}
        f = twin_f(rng, c["f"])
        f["poly"] = [[t if isinstance(t, int) else 2, e] for t, e in f["poly"]]
        return {"f": f}

    def make(p):
        r = rs(p)
        f = p["f"]
        return [f, p["rel"], p["def"], p["rhs"], p["rv"], [point(r, len(f["names"]), True) for _ in range(4)]]

    def call(a):
        m = FN()
        f, o, how, rhs, rv, pts = a
        names = declared(f)
        s = to_str(f)
        if how in ("infix", "cls"):
            right = str(rhs) + (f" + {names[0]} - 2*{names[-1]}" if rv else "")
            sp = " " if rhs % 2 else ""
            cls = m.Relation if how == "infix" else (m.Equality if o == "=" else m.InEquality)
            R = cls(f"{s}{sp}{o}{sp}{right}", variables=names)
        else:
            g = dict(f)
            g["poly"] = f["poly"] + [[-rhs, [0] * len(names)]]
            kw = {
                "op": {"op": o}, "operator": {"operator": o}, "op_str": {"op_str": o}, "callable": {"op": OPS5[o], "op_str": o},
                "enum": {"op": o},
            }[how]
            R = build(g, m.Relation, kw)
        kind_ = "eq" if isinstance(R, m.Equality) else "ineq" if isinstance(R, m.InEquality) else "?"
        tex = R.to_latex().split()[-2:]
        return [[bool(R.relate(x)) for x in pts], kind_, tex]

    def ref(a):
        f, o, how, rhs, rv, pts = a
        names = declared(f)
        out = []
        for x in pts:
            env = dict(zip(names, x))
            v = evaluate(f, env, names).v - rhs
            if rv and how in ("infix", "cls"):
                v -= env[names[0]] - 2 * env[names[-1]]
            out.append(bool(OPS5[o](round(v), 0)))
        tex = {"=": "=", ">": ">", "<": "<", ">=": r"\geq", "<=": r"\leq"}[o]
        return [out, "eq" if o == "=" else "ineq", [tex, "0"]]


@op("parse", T, mutable=False)
class _:
    def gen(rng):
        return {"o": rng.choice(sorted(OPS5) + ["none", "two"]), "sp": rng.choice(["", " ", "  "])}

    def make(p):
        return [p["o"], p["sp"]]

    def call(a):
        from sigmaepsilon.math.function.utils import has_operator, parse_expression

        o, sp = a
        s = "3*x + 2*y" if o == "none" else f"x{sp}<={sp}y >= 2" if o == "two" else f"3*x + 2*y{sp}{o}{sp}x - 1"
        try:
            out = list(parse_expression(s))
        except ValueError:
            out = ["refused"]
        return [bool(has_operator(s)), out]

    def ref(a):
        o, sp = a
        if o in ("none", "two"):
            return [o == "two", ["refused"]]
        return [True, ["3*x + 2*y", o, "x - 1"]]


def poly2(terms):
    return {"names": ["x", "y"], "poly": [[c, list(e)] for e, c in terms.items()], "wrap": None, "order": [0, 1], "shape": "sum", "how": "str"}


def padd(p, q, s=1.0):
    out = dict(p)
    for e, c in q.items():
        out[e] = out.get(e, 0.0) + s * c
    return out


def pmul(p, q):
    out = {}
    for e, c in p.items():
        for f, d in q.items():
            k = (e[0] + f[0], e[1] + f[1])
            out[k] = out.get(k, 0.0) + c * d
    return out


X, Y, ONE = {(1, 0): 1.0}, {(0, 1): 1.0}, {(0, 0): 1.0}


def lin2(c, a, b):
    return {(0, 0): c, (1, 0): a, (0, 1): b}


def sq(p):
    return pmul(p, p)


def std(name, a=1, b=100):
    if name == "Rosenbrock":
        return padd(sq(lin2(a, -1.0, 0.0)), sq(padd(Y, sq(X), -1.0)), b)
    if name == "Himmelblau":
        return padd(sq(padd(sq(X), lin2(-11.0, 0.0, 1.0))), sq(padd(sq(Y), lin2(-7.0, 1.0, 0.0))))
    if name == "Matyas":
        return {(2, 0): 0.26, (0, 2): 0.26, (1, 1): -0.48}
    if name == "Beale":
        out = {}
        t = Y
        for c in (1.5, 2.25, 2.625):
            out = padd(out, sq(padd(lin2(c, -1.0, 0.0), pmul(X, t))))
            t = pmul(t, Y)
        return out
    u = padd(ONE, pmul(sq(lin2(1.0, 1.0, 1.0)), {(0, 0): 19.0, (1, 0): -14.0, (2, 0): 3.0, (0, 1): -14.0, (1, 1): 6.0, (0, 2): 3.0}))
    v = padd({(0, 0): 30.0}, pmul(sq(lin2(0.0, 2.0, -3.0)), {(0, 0): 18.0, (1, 0): -32.0, (2, 0): 12.0, (0, 1): 48.0, (1, 1): -36.0, (0, 2): 27.0}))
    return pmul(u, v)


@op("test_function", T, mutable=False, heavy=2)
class _:
    """The built-in optimisation test functions of (x, y)."""

    def gen(rng):
        n = rng.choice(["Rosenbrock", "Rosenbrock", "Himmelblau", "GoldsteinPrice", "Beale", "Matyas"])
        return {"name": n, "ab": rng.choice([None, [1, 100], [2, 10], [0.5, 3], [-1.5, 7]]) if n == "Rosenbrock" else None}

    def make(p):
        return [p["name"], p["ab"], point(rs(p), 2)]

    def call(a):
        import sigmaepsilon.math.function.functions as m

        name, ab, pt = a
        F = getattr(m, name)(*(ab or []))
        G = [max(abs(float(v)) for v in F.g([float(t) for t in o])) < 1e-3 for o in F.optimums]
        return [float(F(pt)), np.array(F.g(pt), dtype=float), np.array(F.G(pt), dtype=float), [str(v) for v in F.variables], bool(all(G)), len(G)]

    def ref(a):
        name, ab, pt = a
        f = poly2(std(name, *(ab or [])))
        t = evaluate(f, dict(zip("xy", pt)), ["x", "y"])
        return [t.v, t.g, t.h, ["x", "y"], True, 4 if name == "Himmelblau" else 1]


@op("symbols", T, mutable=False)
class _:
    def gen(rng):
        return {"n": rng.randint(2, 6), "s0": rng.randint(0, 9), "t": rng.choice(["x_{}", "x{}", "a{}b"])}

    def make(p):
        return [p["t"], [p["s0"] + 2 * k for k in range(p["n"])]]

    def call(a):
        from sigmaepsilon.math.function.symutils import generate_symbols

        s = generate_symbols(a[0], a[1], real=True)
        return [[str(v) for v in s], all(v.is_real for v in s)]

    def ref(a):
        return [[a[0].format(i) for i in a[1]], True]


@op("relation_refused", T, mutable=False)
class _:
    """Operators that are not of the class, or are none, are refused."""

    def gen(rng):
        return {"cls": rng.choice(["Equality", "InEquality", "Relation"]), "o": rng.choice(sorted(OPS5) + ["!=", "<>", "=>", "abc"]), "how": rng.choice(["op", "operator", "op_str", "infix"])}

    def make(p):
        return [p["cls"], p["o"], p["how"]]

    def call(a):
        cls, o, how = a
        C = getattr(FN(), cls)
        if how in ("op_str", "infix") and o not in OPS5:
            return "unspecified"
        try:
            R = C(f"x + 2*y {o} 3", variables=["x", "y"]) if how == "infix" else C("x + 2*y - 3", variables=["x", "y"], **{how: o})
        except (ValueError, TypeError, AssertionError):
            return "refused"
        return [bool(R.relate([1, 1])), bool(R.relate([0, 1])), bool(R.relate([2, 1]))]

    def ref(a):
        cls, o, how = a
        if o not in OPS5:
            return "unspecified" if how in ("op_str", "infix") else "refused"
        if cls != "Relation" and (o == "=") != (cls == "Equality"):
            return "refused"
        return [bool(OPS5[o](v, 0)) for v in (0, -1, 1)]


@op("own_function", T, mutable=False)
class _:
    """A class that defines value, gradient and Hessian is a function, and
    its calls are passed on as they are."""

    def gen(rng):
        return {"g": rng.random() < 0.7, "h": rng.random() < 0.7, "sub": rng.choice([None, "value", "gradient", "Hessian"])}

    def make(p):
        r = rs(p)
        return [p["g"], p["h"], p["sub"], [float(v) for v in r.uniform(-2, 2, 3)]]

    def call(a):
        g, h, sub, (x, y, s) = a
        F = FN().Function
        body = {"value": lambda self, u, v=0.0, *, scale=1.0: scale * (u * u + v)}
        if g:
            body["gradient"] = lambda self, u, v=0.0, *, scale=1.0: scale * np.array([2 * u, 1.0])
        if h:
            body["Hessian"] = lambda self, u, v=0.0, *, scale=1.0: scale * np.array([[2.0, 0], [0, 0]])
        C = type("Own", (F,), body)
        if sub:
            C = type("Sub", (C,), {sub: lambda self, *a, scale=1.0, **k: scale * 7.0})
        f = C(d=2)
        out = [f(x, y), f(x, v=y, scale=s), f.f(x, scale=s), f.value(x, y)]
        if g or sub == "gradient":
            out += [f.g(x, y, scale=s), f.g(x), f.gradient(x, v=y)]
        if h or sub == "Hessian":
            out += [f.G(x, y, scale=s), f.Hessian(x)]
        return out + [int(f.dimension)]

    def ref(a):
        g, h, sub, (x, y, s) = a
        val = lambda u, v=0.0, scale=1.0: scale * (7.0 if sub == "value" else u * u + v)  # noqa: E731
        gr = lambda scale=1.0: scale * (7.0 if sub == "gradient" else np.array([2 * x, 1.0]))  # noqa: E731
        he = lambda scale=1.0: scale * (7.0 if sub == "Hessian" else np.array([[2.0, 0], [0, 0]]))  # noqa: E731
        out = [val(x, y), val(x, y, s), val(x, scale=s), val(x, y)]
        if g or sub == "gradient":
            out += [gr(s), gr(), gr()]
        if h or sub == "Hessian":
            out += [he(s), he()]
        return out + [2]


@op("numeric_refused", T, mutable=False)
class _:
    """What needs an expression is refused by functions that have none; calls
    of plain functions are passed on with all of their arguments."""

    def gen(rng):
        return {"what": rng.choice(["simplify", "to_latex", "subs", "coefficients", "linear_coefficients", "call"])}

    def make(p):
        return [p["what"], [float(v) for v in rs(p).uniform(-2, 2, 3)]]

    def call(a):
        what, (x, y, s) = a
        f = FN().Function(lambda u, v=1.0, *, k=1.0: k * (u - v), lambda u, *, k=1.0: [k, -k], lambda u, k=0.0: [[k]], d=2)
        if what == "call":
            return [f(x, y, k=s), f.f(x, k=s), f.f(x, v=y), f.g(x, k=s), f.G(x, k=y)]
        try:
            getattr(f, what)(*([[1.0]] if what == "subs" else []))
        except TypeError:
            return "refused"
        return "accepted"

    def ref(a):
        what, (x, y, s) = a
        if what != "call":
            return "refused"
        return [s * (x - y), s * (x - 1.0), x - y, [s, -s], [[y]]]


@op("expr_coeffs", T, mutable=False)
class _:
    """The coefficients of an expression add up to it."""

    def gen(rng):
        f = gen_fun(rng)
        f["wrap"] = None
        f["poly"] = [[c if not isinstance(c, str) else 3, e] for c, e in f["poly"]]
        return {"f": f, "norm": rng.random() < 0.5, "vars": rng.random() < 0.5}

    def make(p):
        return [p["f"], p["norm"], p["vars"], point(rs(p), len(p["f"]["names"]))]

    def call(a):
        import sympy as sy
        from sigmaepsilon.math.function.symutils import coefficients

        f, norm, given, pt = a
        e = sy.expand(sy.sympify(to_str(f)))
        syms = sy.symbols(f["names"])
        d = coefficients(e, variables=list(syms) if given else None, normalize=norm)
        env = dict(zip(syms, pt))
        tot = sum(float(v) * float(k.subs(env)) for k, v in d.items())
        consts = [k for k in d if not k.free_symbols and d[k] != 0]
        keyed = not given or all(s in d for s in syms)
        return [tot, keyed, all(float(k) == 1.0 for k in consts) if norm else True]

    def ref(a):
        f, norm, given, pt = a
        return [evaluate(f, dict(zip(f["names"], pt)), f["names"]).v, True, True]
