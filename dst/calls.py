"""A machine that drives stateless-looking library calls through hostile
histories: seeded interleavings of the workers inside a parallel kernel, seeded
interleavings of several caller threads, injected kernel failures, and a caller
that overwrites its own inputs and the results it was given.

An *operation* is a public callable of the library together with a generator of
arguments and an independent executable reference.  Every completed call has
to return what the reference returns, must leave its arguments alone, and must
not disturb results handed out earlier.
"""
import gc
import random

import numpy as np

from . import sched as S
from .simnumba import RT

OPS = {}


class Op:
    def __init__(self, name, tags, gen, make, call, ref, tol=1e-7, heavy=1, mutable=True, kind=None, effect=False, own=True):
        self.kind = kind  # kind of long-lived object the call works on
        self.effect = effect  # the call is meant to change that object
        self.own = own  # the result is the caller's to keep and overwrite
        self.name = name
        self.tags = set(tags)
        self.gen = gen
        self.make = make
        self.call = call
        self.ref = ref
        self.tol = tol
        self.heavy = heavy
        self.mutable = mutable


KINDS = {}


class Holder:
    """A long-lived object of the library together with the plain data from
    which the references compute (`model`); `look` returns what can be observed
    of the object and must not change behind the caller's back."""

    def __init__(self, p, obj, model, look):
        self.p, self.obj, self.model, self.look = p, obj, model, look

    def snap(self):
        return snap({"model": self.model, "seen": self.look(self.obj)})


def kind(name):
    def deco(cls):
        KINDS[name] = cls
        return cls

    return deco


def op(name, tags, **kw):
    def deco(cls):
        OPS[name] = Op(name, tags, cls.gen, cls.make, cls.call, cls.ref, **kw)
        OPS[name].twin = getattr(cls, "twin", None)
        return cls

    return deco


# ---------------------------------------------------------------- arguments
LAYOUTS = ["C", "C", "C", "F", "S", "R", "T"]


def lay(a, how):
    """The same values in a different memory layout."""
    if how == "F":
        return np.asfortranarray(a)
    if how == "S":
        big = np.full(a.shape[:-1] + (2 * a.shape[-1] + 1,), 777.0).astype(a.dtype)
        big[..., 1::2] = a
        return big[..., 1::2]
    if how == "R":
        return np.ascontiguousarray(a[::-1])[::-1]
    if how == "T" and a.ndim >= 2:
        return np.ascontiguousarray(np.swapaxes(a, 0, -1)).swapaxes(0, -1)
    return np.ascontiguousarray(a)


def rs(p, k=0):
    return np.random.RandomState((p["s"] * 7919 + k) % (2**31 - 1))


def size(rng, big=0.08):
    """Item counts: mostly small, sometimes far above any thread count."""
    r = rng.random()
    if r < 0.06:
        return 0
    if r < 0.2:
        return 1
    if r < 1 - big:
        return rng.randint(2, 9)
    return rng.choice([17, 33, 64, 65, 100, 129] * 5 + [257, 300, 513, 1025])


def size1(rng, big=0.08):
    return max(1, size(rng, big))


def mats(r, shape, dim):
    """Well conditioned square matrices."""
    A = r.uniform(-1, 1, shape + (dim, dim))
    return A + 3.0 * np.eye(dim)


# ---------------------------------------------------------------- comparing
def leaves(x):
    """The numpy arrays reachable in an argument or result."""
    if isinstance(x, np.ndarray):
        yield x
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from leaves(v)
    elif isinstance(x, dict):
        for v in x.values():
            yield from leaves(v)


def snap(x):
    if isinstance(x, Holder):
        return x.snap()
    if isinstance(x, np.ndarray):
        return np.array(x, copy=True)
    if isinstance(x, tuple):
        return tuple(snap(v) for v in x)
    if isinstance(x, list):
        return [snap(v) for v in x]
    if isinstance(x, dict):
        return {k: snap(v) for k, v in x.items()}
    return x


def same(x, y):
    """Bitwise equality of snapshots (NaN equals NaN)."""
    if isinstance(x, Holder):
        x = x.snap()
    if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
        x, y = np.asarray(x), np.asarray(y)
        if x.shape != y.shape or x.dtype != y.dtype:
            return False
        if x.dtype.kind in "fc":
            return bool(np.array_equal(x, y, equal_nan=True))
        return bool(np.array_equal(x, y))
    if isinstance(x, (list, tuple)):
        return type(x) is type(y) and len(x) == len(y) and all(same(a, b) for a, b in zip(x, y))
    if isinstance(x, dict):
        return isinstance(y, dict) and set(x) == set(y) and all(same(x[k], y[k]) for k in x)
    return x is y or bool(x == y)


def close(x, y, tol):
    """Result x against expected y."""
    if hasattr(y, "judge"):
        return y.judge(x)
    if isinstance(y, dict):
        try:
            keys = {int(k) if not isinstance(k, str) else k for k in x.keys()}
        except Exception:
            return False
        if keys != set(y):
            return False
        return all(close(x[k], y[k], tol) for k in y)
    if isinstance(y, (list, tuple)):
        try:
            if len(x) != len(y):
                return False
        except TypeError:
            return False
        return all(close(a, b, tol) for a, b in zip(x, y))
    if isinstance(y, (str, bool, type(None))):
        return x == y
    try:
        x = np.asarray(x)
        y = np.asarray(y)
    except Exception:
        return False
    if x.shape != y.shape:
        return False
    if x.size == 0:
        return True
    if y.dtype.kind in "iub" and x.dtype.kind in "iub":
        return bool(np.array_equal(x, y))
    try:
        x = x.astype(float)
        y = y.astype(float)
    except Exception:
        return bool(np.all(x == y))
    nan = np.isnan(y)
    if nan.any():
        if not np.array_equal(nan, np.isnan(x)):
            return False
        x, y = x[~nan], y[~nan]
        if x.size == 0:
            return True
    inf = np.isinf(y)
    if inf.any():
        if not np.array_equal(x[inf], y[inf]):
            return False
        x, y = x[~inf], y[~inf]
        if x.size == 0:
            return True
    bound = tol * (1.0 + np.max(np.abs(y)))
    d = np.abs(x - y)
    return bool(np.all(d <= bound))


def brief(x):
    return repr(x).replace("\n", " ")[:260]


# ---------------------------------------------------------------- machine
class Calls:
    def __init__(self, case, ctx):
        self.case = case
        self.ctx = ctx
        self.held = []  # (result, snapshot, where) handed out earlier
        self.k = None
        self.objs = [KINDS[p["kind"]].make(p) for p in case.get("objs", [])]
        self.slog = {}  # schedules actually taken, for the minimiser

    # -- one call ----------------------------------------------------------
    def build(self, c):
        o = OPS[c["op"]]
        if o.kind:
            h = self.objs[c["obj"]]
            return o, [h] + o.make(c, h.model)
        return o, o.make(c)

    def judge(self, o, c, args, before, out, where):
        ctx = self.ctx
        if not o.effect and not same(args, before):
            ctx.fail("argument-modified", f"{where}: {o.name} changed its arguments" + (" or its object" if o.kind else ""))
        exp = o.ref(before)
        if not close(out, exp, o.tol):
            ctx.fail("wrong-result", f"{where}: {o.name} {short(c)} returned {brief(out)}, expected {brief(exp)}")

    def hold(self, o, args, out, where):
        outs = [a for a in leaves(out) if a.size]
        ins = [a for a in leaves(args) if a.size]
        if any(np.shares_memory(a, b) for a in outs for b in ins):
            self.ctx.probe("result_is_view_of_argument")
            return
        self.held.append((out, snap(out), where))
        if len(self.held) > 12:
            self.held.pop(0)

    def check_held(self, when):
        for out, sn, where in self.held:
            if not same(out, sn):
                self.ctx.fail("earlier-result-changed", f"result of {where} changed {when}")

    def par(self, c):
        p = c.get("par")
        RT.reset()
        if p:
            RT.threads = p["threads"]
            RT.chunk = p.get("chunk")
            RT.sched_spec = p["spec"]
            RT.opcodes = p.get("ops", False)

    def endpar(self):
        ctx = self.ctx
        ctx.steps += RT.steps
        if RT.regions:
            self.slog.setdefault(self.k, []).append(RT.switch_log)
            ctx.probe("parallel_regions", RT.regions)
            ctx.probe("preemptions", sum(len(s) for _, s in RT.switch_log))
            ctx.sig += [int(x) for x in RT.sigs]
            ctx.ev("regions", [int(x) for x in RT.sigs])
        RT.reset()

    def single(self, k, c):
        ctx = self.ctx
        o, args = self.build(c)
        where = f"call {k}"
        before = snap(args)
        self.par(c)
        if c.get("fault"):
            RT.fault_at = c["fault"]
            exc = None
            try:
                out = o.call(args)
            except Exception as e:  # the injected failure, or one caused by it
                exc = e
            fired = RT.fired
            self.endpar()
            if fired:
                ctx.fault("kernel_failure")
            ctx.ev("call", k, o.name, "fault", fired, type(exc).__name__ if exc else "ok")
            if exc is not None and not fired:
                ctx.fail("unexpected-error", f"{where}: {o.name} {short(c)} raised {type(exc).__name__}: {exc}")
            if (exc is not None or not o.effect) and not same(args, before):
                ctx.fail("argument-modified", f"{where}: failing {o.name} changed its arguments" + (" or its object" if o.kind else ""))
            if exc is None:
                self.judge(o, c, args, before, out, where)
                if o.effect:
                    self.check_held(f"by {where} ({o.name})")
                    return
            self.check_held(f"by the failing {where}")
            # and then the same call works
            c2 = {**c, "fault": 0}
            self.par(c2)
            out = self.attempt(o, c2, args, where + " (retry)")
            self.endpar()
            self.judge(o, c2, args, before, out, where + " (retry)")
        else:
            out = self.attempt(o, c, args, where)
            self.endpar()
            ctx.ev("call", k, o.name, "ok")
            self.judge(o, c, args, before, out, where)
        self.check_held(f"by {where} ({o.name})")
        if c.get("flt"):
            ctx.fault("solver_" + c["flt"])
        ctx.sig.append(o.name)
        ctx.probe("op_" + o.name)
        if c.get("mutate") and o.mutable and not o.effect:
            # the caller changes its own arrays in place and calls again
            fresh = self.build({**c, "s": c["s"] + 1})[1]
            if refill(args, fresh):
                ctx.fault("caller_overwrites_input")
                self.held = [h for h in self.held if h[2] != where]
                b2 = snap(args)
                self.par(c)
                out2 = self.attempt(o, c, args, where + " (again)")
                self.endpar()
                self.judge(o, c, args, b2, out2, where + " (again, inputs overwritten)")
        if not o.own:
            pass
        elif c.get("scribble"):
            n = 0
            for a in leaves(out):
                if a.flags.writeable and a.size:
                    a[...] = np.array(-12345).astype(a.dtype)
                    n += 1
            if n:
                ctx.fault("caller_overwrites_result")
        else:
            self.hold(o, args, out, where)
        del args, before, out
        if c.get("gc"):
            gc.collect()

    def attempt(self, o, c, args, where):
        try:
            return o.call(args)
        except Exception as e:
            self.endpar()
            self.ctx.fail("unexpected-error", f"{where}: {o.name} {short(c)} raised {type(e).__name__}: {e}")

    def concurrent(self, k, g):
        """Several caller threads; some share the very same argument objects."""
        ctx = self.ctx
        built = []
        for c in g["calls"]:
            if c.get("share") is not None and c["share"] < len(built):
                o, args, cc = built[c["share"]]
                built.append((o, args, cc))
            else:
                o, args = self.build(c)
                built.append((o, args, c))
        before = [snap(a) for _, a, _ in built]
        RT.reset()
        sc = S.Sched(S.Decider(g["spec"]), opcodes=g.get("ops", False))
        tasks = sc.run([lambda o=o, a=a: o.call(a) for o, a, _ in built])
        ctx.steps += sc.step
        ctx.sig.append(sc.sig)
        ctx.probe("caller_groups")
        ctx.probe("preemptions", len(sc.switches))
        ctx.ev("group", k, [o.name for o, _, _ in built], int(sc.sig), len(sc.switches))
        RT.reset()
        self.slog[self.k] = sc.switches
        for t, (o, args, c), b in zip(tasks, built, before):
            where = f"concurrent call {k}.{t.tid}"
            if t.exc is not None:
                if not isinstance(t.exc, Exception):
                    raise t.exc
                ctx.fail("unexpected-error", f"{where}: {o.name} {short(c)} raised {type(t.exc).__name__}: {t.exc}")
            self.judge(o, c, args, b, t.result, where)
            if c.get("flt"):
                ctx.fault("solver_" + c["flt"])
            ctx.sig.append(o.name)
            ctx.probe("op_" + o.name)
        self.check_held(f"by concurrent group {k}")

    def run(self):
        for k, c in enumerate(self.case["calls"]):
            self.k = k
            if "calls" in c:
                self.concurrent(k, c)
            else:
                self.single(k, c)
        self.check_held("by the end of the run")
        RT.reset()


def refill(args, fresh):
    """Copies the values of `fresh` into the arrays of `args`; False if the
    two do not have the same structure."""
    la, lf = list(leaves(args)), list(leaves(fresh))
    if len(la) != len(lf) or any(a.shape != f.shape or a.dtype != f.dtype for a, f in zip(la, lf)):
        return False
    if not la:
        return False
    for a, f in zip(la, lf):
        a[...] = f
    return True


def short(c):
    return {k: v for k, v in c.items() if k not in ("par", "op")}


# ---------------------------------------------------------------- generators
def gen_spec(rng):
    return {
        "mode": "rr" if rng.random() < 0.2 else "random",
        "seed": rng.randrange(10**6),
        "p": rng.choice([0.05, 0.2, 0.5, 0.8]),
    }


def gen_par(rng):
    if rng.random() < 0.12:
        return None
    return {
        "threads": rng.choice([2, 2, 3, 4]),
        "spec": gen_spec(rng),
        "chunk": rng.choice([None, None, None, 1, 2]),
        "ops": rng.random() < 0.1,
    }


def gen_call(rng, names, objs=(), group=False):
    ok = [n for n in names if (not OPS[n].kind or any(p["kind"] == OPS[n].kind for p in objs)) and not (group and OPS[n].effect)]
    names = ok
    n = names[rng.randrange(len(names))]
    while OPS[n].heavy > 1 and rng.random() > 1.0 / OPS[n].heavy:
        n = names[rng.randrange(len(names))]
    return gen_op(rng, n, objs)


def gen_op(rng, n, objs):
    c = {"op": n, "s": rng.randrange(10**6)}
    if OPS[n].kind:
        c["obj"] = rng.choice([j for j, p in enumerate(objs) if p["kind"] == OPS[n].kind])
        c.update(OPS[n].gen(rng, objs[c["obj"]]))
    else:
        c.update(OPS[n].gen(rng))
    return c


def gen_case(rng, tags, ncalls=(2, 7), p_group=0.3, p_fault=0.15, kinds=(), nobjs=(1, 2)):
    names = sorted(n for n, o in OPS.items() if o.tags & tags for _ in range(1))
    objs = []
    for _ in range(rng.randint(*nobjs) if kinds else 0):
        kd = rng.choice(kinds)
        if objs and hasattr(KINDS[objs[0]["kind"]], "twin") and rng.random() < 0.4:
            # an object that is easily mistaken for the first one
            objs.append(KINDS[objs[0]["kind"]].twin(rng, objs[0]))
            continue
        objs.append({"kind": kd, "s": rng.randrange(10**6), **KINDS[kd].gen(rng)})
    calls = []
    for _ in range(rng.randint(*ncalls)):
        if rng.random() < p_group:
            m = rng.randint(2, 3)
            sub = []
            same_op = rng.random() < 0.6
            base = gen_call(rng, names, objs, group=True)
            for j in range(m):
                if j and rng.random() < 0.3:
                    sub.append({**base, "share": 0})
                    continue
                if same_op:
                    c = gen_op(rng, base["op"], objs)
                    if rng.random() < 0.6:
                        c = {**base, "s": c["s"]}
                else:
                    c = gen_call(rng, names, objs, group=True)
                if j == 0:
                    c = base
                sub.append(c)
            calls.append({"calls": sub, "spec": gen_spec(rng), "ops": rng.random() < 0.15})
        else:
            c = gen_call(rng, names, objs)
            c["par"] = gen_par(rng)
            if rng.random() < p_fault:
                c["fault"] = rng.choice([1, 1, 1, 2, 3, 5])
            if rng.random() < 0.2:
                c["mutate"] = True
            if rng.random() < 0.2:
                c["scribble"] = True
            if rng.random() < 0.1:
                c["gc"] = True
            calls.append(c)
            if rng.random() < 0.25:  # the same call again, or with other data
                calls.append({**c, "s": c["s"] if rng.random() < 0.5 else rng.randrange(10**6), "fault": 0})
            eff = [n for n in names if OPS[n].effect and OPS[n].kind == OPS[c["op"]].kind] if OPS[c["op"]].kind else []
            if eff and not OPS[c["op"]].effect and rng.random() < 0.3:
                # ask, change the object, ask the same again
                e = {"op": rng.choice(eff), "s": rng.randrange(10**6), "obj": c["obj"], "par": None}
                e.update(OPS[e["op"]].gen(rng, objs[c["obj"]]))
                calls.append(e)
                calls.append({**c, "fault": 0})
            tw = OPS[c["op"]].twin
            if tw and rng.random() < 0.35:  # a call that is easily mistaken for this one
                calls.append({**c, **tw(rng, c), "fault": 0})
    return {"calls": calls, "objs": objs} if objs else {"calls": calls}


def shrink_case(case):
    calls = case["calls"]
    for k in range(len(calls)):
        yield {**case, "calls": calls[:k] + calls[k + 1 :]}
    for k, c in enumerate(calls):
        def put(x):
            return {**case, "calls": calls[:k] + [x] + calls[k + 1 :]}

        if "calls" in c:
            if len(c["calls"]) > 2:
                for j in range(len(c["calls"])):
                    yield put({**c, "calls": c["calls"][:j] + c["calls"][j + 1 :]})
            if len(c["calls"]) == 1:
                yield put({k2: v for k2, v in c["calls"][0].items() if k2 != "share"})
            if c.get("ops"):
                yield put({**c, "ops": False})
            for s in range(3):
                if c["spec"].get("seed", 0) > 2:
                    yield put({**c, "spec": {"mode": "random", "seed": s, "p": c["spec"].get("p", 0.2)}})
        else:
            for f in ("fault", "mutate", "scribble", "gc"):
                if c.get(f):
                    yield put({k2: v for k2, v in c.items() if k2 != f})
            if c.get("par"):
                yield put({**c, "par": None})
                if c["par"]["threads"] > 2:
                    yield put({**c, "par": {**c["par"], "threads": 2}})
                if c["par"].get("ops"):
                    yield put({**c, "par": {**c["par"], "ops": False}})
            for f in ("n", "m", "k", "d"):
                if isinstance(c.get(f), int) and c[f] > 2:
                    yield put({**c, f: 2})
                    yield put({**c, f: c[f] - 1})
    yield from shrink_schedules(case)


def shrink_schedules(case):
    """Replaces seeded schedules by the explicit list of switches they took,
    then drops switches."""
    from .core import Ctx, Violation

    calls = case["calls"]

    def put(k, x):
        return {**case, "calls": calls[:k] + [x] + calls[k + 1 :]}

    seeded = [k for k, c in enumerate(calls) if spec_of(c) and spec_of(c).get("mode") != "explicit"]
    if seeded:
        m = Calls(case, Ctx())
        try:
            m.run()
        except Violation:
            pass
        for k in seeded:
            c, log = calls[k], m.slog.get(k)
            if log is None:
                continue
            if "calls" in c:
                yield put(k, {**c, "spec": {"mode": "explicit", "switches": [list(x) for x in log]}})
            elif len(log) == 1:
                reg = {str(r): [list(x) for x in sw] for r, sw in log[0]}
                yield put(k, {**c, "par": {**c["par"], "spec": {"mode": "explicit", "regions": reg}}})
    for k, c in enumerate(calls):
        sp = spec_of(c)
        if not sp or sp.get("mode") != "explicit":
            continue
        if "calls" in c:
            for sw in thin(sp["switches"]):
                yield put(k, {**c, "spec": {"mode": "explicit", "switches": sw}})
        else:
            for r, lst in sp["regions"].items():
                for sw in thin(lst):
                    yield put(k, {**c, "par": {**c["par"], "spec": {"mode": "explicit", "regions": {**sp["regions"], r: sw}}}})


def spec_of(c):
    if "calls" in c:
        return c["spec"]
    return c["par"]["spec"] if c.get("par") else None


def thin(lst):
    n = len(lst)
    blk = max(1, n // 2)
    while blk >= 1 and n:
        for a in range(0, n, blk):
            yield lst[:a] + lst[a + blk :]
        if blk == 1:
            break
        blk //= 2
