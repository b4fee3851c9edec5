"""Linear programs (C12)."""
import math

import numpy as np

from .calls import Holder, kind, op, rs
from .ops_func import OPS5, num

T = {"lp"}
NAMES = ["x", "y", "z", "x1", "x2", "x10", "t", "u", "alpha"]


def gen_row(rng, n, sparse=0.35, irr=0.08):
    return [0 if rng.random() < sparse else rng.choice(["pi", "sqrt2"]) if rng.random() < irr else rng.choice([1, 1, 2, 3, -1, -2, 0.5, 1.75, -0.4]) for _ in range(n)]


def term(c, name):
    cs = {"pi": "pi", "sqrt2": "sqrt(2)"}.get(c, repr(c))
    return f"({cs})*{name}"


def lin_str(row, names, const=0, order=None):
    ts = [term(row[i], names[i]) for i in (order or range(len(names))) if row[i] != 0]
    if const or not ts:
        ts.append(f"({const!r})")
    return " + ".join(ts)


def twin_lp(rng, p):
    """A problem with the same texts, its variables in another order or of
    another kind, or one that differs in a detail only."""
    n = len(p["names"])
    q = {**p, "cons": [dict(c) for c in p["cons"]]}
    w = rng.choice(["vorder", "vorder", "oorder", "order", "int", "bounds", "op", "sparsify", "rename"])
    if w in ("vorder", "oorder"):
        q[w] = rng.sample(range(n), n)
    elif w == "order":
        for c in q["cons"]:
            c["order"] = rng.sample(range(n), n)
    elif w == "int":
        q["integer"] = rng.choice([None, "sym", "list", "scalar"])
        q["ints"] = [rng.randint(0, 1) for _ in range(n)]
    elif w == "bounds":
        q["bkind"] = rng.choice(["list", "default", "tuple"])
    elif w == "op" and q["cons"]:
        c = rng.choice(q["cons"])
        c["op"] = {"<=": ">=", ">=": "<=", "<": ">", ">": "<", "=": "="}[c["op"]]
    elif w == "sparsify":
        q["sparsify"] = not p["sparsify"]
    elif w == "rename":
        q["names"] = rng.sample(p["names"], n)
    return q


@kind("lp")
class _:
    def gen(rng):
        n = rng.choice([1, 2, 2, 3, 3, 4])
        names = rng.sample(NAMES, n)
        integer = rng.choice([None, None, None, "sym", "list", "scalar"])
        lohi = []
        for _ in range(n):
            lo = rng.choice([0, 0, -3, 1])
            lohi.append([lo, lo + rng.randint(2, 6)])
        x0 = [rng.randint(lo, hi) for lo, hi in lohi]
        m = rng.randint(0, 4)
        cons = []
        for _ in range(m):
            row = gen_row(rng, n)
            if all(v == 0 for v in row):
                row[rng.randrange(n)] = 1
            o = rng.choice(["=", "<=", "<=", ">=", ">=", "<", ">"])
            v = sum(num(c) * x for c, x in zip(row, x0))
            if any(isinstance(c, str) for c in row) and o == "=":
                o = "<="
            slack = 0 if o == "=" else rng.choice([0.5, 1, 2.5]) if o in ("<", ">") else rng.choice([0, 1, 2.5])
            rhs = v + slack if o.startswith("<") else v - slack
            rhs = round(rhs, 6)
            if o == "<=":
                rhs = math.ceil(rhs * 1e4) / 1e4
            elif o == ">=":
                rhs = math.floor(rhs * 1e4) / 1e4
            cons.append({"row": row, "op": o, "rhs": rhs, "def": rng.choice(["infix", "infix", "op", "op_str", "callable", "sym"]), "order": rng.sample(range(n), n), "text": rng.sample(range(n), n), "right": rng.random() < 0.3})
        kindb = rng.choice(["list", "list", "list", "default", "tuple", "free"])
        odd = rng.random()
        if cons and odd < 0.1:  # usually infeasible
            c = rng.choice(cons)
            c["rhs"] = 1000 if c["op"] in (">=", ">", "=") else -1000
        return {
            "names": names, "cons": cons, "obj": gen_row(rng, n, 0.25), "const": rng.choice([0, 0, 2, -7.5]), "oorder": rng.sample(range(n), n), "vorder": rng.sample(range(n), n),
            "bounds": lohi, "bkind": kindb, "integer": integer, "ints": [rng.randint(0, 1) for _ in range(n)], "sparsify": rng.random() < 0.6, "ohow": rng.choice(["str", "sym"]),
        }

    twin = twin_lp

    def make(p):
        obj, syms = build(p)
        return Holder(p, obj, model_of(p), look)


def build(p):
    import sympy as sy
    from sigmaepsilon.math.function import Equality, Function, InEquality, Relation
    from sigmaepsilon.math.optimize import LinearProgrammingProblem as LPP

    names = p["names"]
    syms = [sy.Symbol(n, integer=True) if p["integer"] == "sym" and k else sy.Symbol(n) for n, k in zip(names, p["ints"])]
    loc = dict(zip(names, syms))

    def perm(o):
        return [syms[i] for i in o]

    s = lin_str(p["obj"], names, p["const"])
    f = Function(s if p["ohow"] == "str" else sy.sympify(s, locals=loc), variables=perm(p["oorder"]))
    cons = []
    for c in p["cons"]:
        vs = perm(c["order"])
        row, rhs, o = c["row"], c["rhs"], c["op"]
        if c["def"] == "infix":
            left, right = list(row), [0] * len(row)
            if c["right"]:
                j = c["text"][0]
                if not isinstance(row[j], str):
                    left[j], right[j] = 0, -row[j]
            text = lin_str(left, names, 0, c["text"]) + f" {o} " + lin_str(right, names, rhs)
            cls = Relation if c["text"][0] % 2 else (Equality if o == "=" else InEquality)
            cons.append(cls(text, variables=vs))
        else:
            text = lin_str(row, names, -rhs, c["text"])
            e = sy.sympify(text, locals=loc) if c["def"] == "sym" else text
            kw = {"op_str": {"op_str": o}, "callable": {"op": OPS5[o], "op_str": o}}.get(c["def"], {"op": o})
            cons.append(Relation(e, variables=vs, **kw))
    order = p["vorder"]
    kw = {}
    bk = p["bkind"]
    if bk == "list":
        kw["bounds"] = [tuple(p["bounds"][i]) for i in order]
    elif bk == "tuple":
        kw["bounds"] = (-2, 6)
    elif bk == "free":
        kw["bounds"] = (None, None)
    if p["integer"] == "list":
        kw["integrality"] = [p["ints"][i] for i in order]
    elif p["integer"] == "scalar":
        kw["integrality"] = 1
    return LPP(f, cons, variables=perm(order), sparsify=p["sparsify"], **kw), syms


def model_of(p):
    """Plain numbers in the order of the problem's variables."""
    o = p["vorder"]
    n = len(o)
    bk = p["bkind"]
    bounds = [list(p["bounds"][i]) if bk == "list" else [0, None] if bk == "default" else [-2, 6] if bk == "tuple" else [None, None] for i in o]
    ints = [0] * n if p["integer"] is None else [1] * n if p["integer"] == "scalar" else [p["ints"][i] for i in o]
    return {
        "c": [num(p["obj"][i]) for i in o], "const": p["const"], "bounds": bounds, "ints": ints,
        "cons": [[[num(c["row"][i]) for i in o], c["op"], c["rhs"]] for c in p["cons"]],
    }


def look(P):
    c, kw = P.obj, P.constraints
    names = [str(v) for v in P.variables]
    one = [1.0 + 0.5 * k for k in range(len(names))]
    at = dict(zip(names, one))

    def val(F):
        return float(F([at[str(v)] for v in F.variables]))

    return {"names": names, "obj": val(c), "cons": [[type(k).__name__, val(k), str(k.op)] for k in kw], "bounds": repr(P.bounds), "int": repr(P.integrality)}


def reference(m, maximize, over=None):
    """Optimal value from the plain numbers."""
    from .load import load

    sgn = -1.0 if maximize else 1.0
    Aub, bub, Aeq, beq = [], [], [], []
    for row, o, rhs in m["cons"]:
        if o == "=":
            Aeq.append(row)
            beq.append(rhs)
        elif o.startswith("<"):
            Aub.append(row)
            bub.append(rhs)
        else:
            Aub.append([-v for v in row])
            bub.append(-rhs)
    r = load.real_linprog(
        sgn * np.array(m["c"]), A_ub=np.array(Aub) if Aub else None, b_ub=bub or None, A_eq=np.array(Aeq) if Aeq else None, b_eq=beq or None,
        bounds=[tuple(b) for b in (over or m["bounds"])], integrality=m["ints"] if any(m["ints"]) else None,
    )
    if not r.success:
        return None
    return float(np.dot(m["c"], r.x) + m["const"])


def infeasibility(m, x, bounds):
    v = 0.0
    for row, o, rhs in m["cons"]:
        d = float(np.dot(row, x)) - rhs
        v = max(v, abs(d) if o == "=" else d if o.startswith("<") else -d)
    for (lo, hi), t, k in zip(bounds, x, m["ints"]):
        if lo is not None:
            v = max(v, lo - t)
        if hi is not None:
            v = max(v, t - hi)
        if k:
            v = max(v, abs(t - round(t)))
    return v


def do_solve(P, m, maximize, method, fault, over):
    kw = {}
    if fault:
        kw["options"] = {"dst_fault": fault}
    if method:
        kw["method"] = method
    if over:
        kw["bounds"] = [tuple(b) for b in over]
    if maximize is not None:
        kw["maximize"] = maximize
    try:
        r = P.solve(**kw)
    except MemoryError:
        if fault != "raise":
            raise
        return {"raised": True}
    out = {"success": bool(r.success), "fun": None, "point_ok": True}
    if r.x is not None:
        out["fun"] = float(r.fun)
        x = np.asarray(r.x, dtype=float)
        value = float(np.dot(m["c"], x) + m["const"])
        out["point_ok"] = bool(abs(value - out["fun"]) < 1e-6 * (1 + abs(value))) and infeasibility(m, x, over or m["bounds"]) < 1e-5
    if not r.success:
        out["status"] = int(r.status) if fault else "failed"
        if not fault:
            out["fun"], out["point_ok"] = None, True
    return out


@op("lp_solve", T, kind="lp", mutable=False, tol=1e-6)
class _:
    def gen(rng, p):
        return {
            "max": rng.choice([None, False, True, True]), "method": rng.choice([None, None, "highs", "highs-ds"]) if p["integer"] is None else None,
            "flt": rng.choice(["limit", "numerical", "incumbent", "raise"]) if rng.random() < 0.25 else None,
            "over": rng.random() < 0.15,
        }

    def make(p, m):
        over = [[0, 3 + k] for k in range(len(m["c"]))] if p["over"] else None
        return [p["max"], None if any(m["ints"]) else p["method"], p["flt"], over]

    def call(a):
        h = a[0]
        return do_solve(h.obj, h.model, *a[1:])

    def ref(a):
        m = a[0]["model"]
        _, mx, method, fault, over = a
        if fault == "raise":
            return {"raised": True}
        if fault in ("limit", "numerical"):
            return {"success": False, "fun": None, "point_ok": True, "status": 1 if fault == "limit" else 4}
        best = reference(m, bool(mx), over)
        if fault == "incumbent":
            return Incumbent(m)
        if best is None:
            return {"success": False, "fun": None, "point_ok": True, "status": "failed"}
        return {"success": True, "fun": best, "point_ok": True}


@op("lp_edit", T, kind="lp", mutable=False, effect=True)
class _:
    """The problem is changed between two solutions."""

    def gen(rng, p):
        return {"what": rng.choice(["bounds", "bounds", "add", "add", "drop", "int"]), "row": gen_row(rng, 4, irr=0), "rel": rng.choice(["<=", ">="]), "rhs": rng.choice([0, 1, 2.5, 4])}

    def make(p, m):
        n = len(m["c"])
        row = p["row"][:n]
        if not any(row):
            row[0] = 1
        return [p["what"], row, p["rel"], p["rhs"], [[int(v), int(v) + 3] for v in rs(p).randint(-2, 2, n)], [int(v) for v in rs(p).randint(0, 2, n)]]

    def call(a):
        from sigmaepsilon.math.function import Relation

        h, what, row, o, rhs, bounds, ints = a
        P, m = h.obj, dict(h.model)
        if what == "bounds":
            P.bounds = [tuple(b) for b in bounds]
            m["bounds"] = bounds
        elif what == "int":
            P.integrality = list(ints)
            m["ints"] = ints
        elif what == "drop" and m["cons"]:
            P.constraints.pop()
            m["cons"] = m["cons"][:-1]
        elif what == "add":
            vs = list(P.variables)
            P.constraints.append(Relation(lin_str(row, [str(v) for v in vs]) + f" {o} {rhs}", variables=vs))
            m["cons"] = m["cons"] + [[[float(v) for v in row], o, rhs]]
        h.model = m

    def ref(a):
        return None


class Incumbent:
    """A solve stopped early: reported as such, with an honest objective."""

    def __init__(self, m):
        self.m = m

    def judge(self, out):
        return out.get("success") is False and out.get("status") == 1 and out.get("point_ok") is True


@op("lp_build_solve", T, mutable=False, tol=1e-6)
class _:
    """Definition and solution in one go (possibly concurrent)."""

    def gen(rng):
        from .calls import KINDS

        return {"lp": KINDS["lp"].gen(rng), "max": rng.random() < 0.5}

    def twin(rng, c):
        return {"lp": twin_lp(rng, c["lp"])} if rng.random() < 0.8 else {"max": not c["max"]}

    def make(p):
        return [p["lp"], p["max"]]

    def call(a):
        P, _ = build(a[0])
        return do_solve(P, model_of(a[0]), a[1], None, None, None)

    def ref(a):
        best = reference(model_of(a[0]), a[1])
        if best is None:
            return {"success": False, "fun": None, "point_ok": True, "status": "failed"}
        return {"success": True, "fun": best, "point_ok": True}


@op("lp_refused", T, mutable=False, heavy=2)
class _:
    """Problems that cannot be understood are refused, not misread."""

    def gen(rng):
        return {"how": rng.choice(["callable", "callable_ineq", "numeric_obj", "numeric_con", "not_function", "not_relation", "no_variables", "str_variables", "foreign_variable", "nonlinear_obj", "nonlinear_con"]), "term": rng.choice(["x**2", "x*y", "sin(x)", "1/y", "x**2*y", "sqrt(x)", "y**3", "exp(y)"])}

    def make(p):
        return [p["how"], p["term"]]

    def call(a):
        import sympy as sy
        from sigmaepsilon.math.function import Function, InEquality, Relation
        from sigmaepsilon.math.optimize import LinearProgrammingProblem as LPP

        x, y = v = sy.symbols("x y")
        f = Function(x + y, variables=v)
        c = Relation("x + y >= 2", variables=v)
        kw = {"variables": v}
        how = a[0]
        if how == "callable":
            c = Relation(x + y - 2, variables=v, op=lambda s, t: s >= t)
        elif how == "callable_ineq":
            c = InEquality(x + y - 2, variables=v, op=lambda s, t: s >= t)
        elif how == "nonlinear_obj":
            f = Function("x + y + 2*" + a[1], variables=v)
        elif how == "nonlinear_con":
            c = Relation("x + y >= 2 + " + a[1], variables=v)
        elif how == "numeric_obj":
            f = Function(lambda z: z[0], d=2)
        elif how == "numeric_con":
            c = Relation(lambda z: z[0], op=">=", d=2)
        elif how == "not_function":
            f = "x + y"
        elif how == "not_relation":
            c = "x + y >= 2"
        elif how == "no_variables":
            kw = {}
        elif how == "str_variables":
            kw = {"variables": ["x", "y"]}
        else:
            kw = {"variables": [x, sy.Symbol("zz")]}
        try:
            LPP(f, [c], **kw)
        except (ValueError, TypeError):
            return "refused"
        return "accepted"

    def ref(a):
        return "refused"
