"""Simulated life of reference frames and the tensors registered to them.

The real frame and tensor classes are driven through generated histories:
creation, every kind of in-place change of a frame, moving tensors between
frames, arithmetic, copies, deaths of objects at arbitrary points of a running
update, and failures injected into the numerical kernels.  The reference model
keeps, per tensor, its components in the ambient frame (what physically must
not change) and, per frame, its axes; both are compared after every step.
"""
import copy
import gc
import random
import sys

import numpy as np

from . import sched as S
from .core import StopRun
from .simnumba import RT

RTOL = 1e-6


# ---- reference algebra (plain numpy, one item at a time) -----------------
def _apply(a, M, rank):
    """Contract each of the last `rank` axes of a with the first axis of M."""
    off = a.ndim - rank
    for k in range(rank):
        a = np.moveaxis(np.tensordot(a, M, axes=([off + k], [0])), -1, off + k)
    return a


def ambient(arr, F, rank):
    arr, F = np.array(arr, dtype=float), np.array(F, dtype=float)
    if F.ndim == 2:
        return _apply(arr, F, rank)
    return np.array([_apply(arr[i], F[i], rank) for i in range(F.shape[0])])


def _inv(M):
    n = M.shape[0]
    A = np.hstack([np.array(M, dtype=float), np.eye(n)])
    for c in range(n):
        p = c + int(np.argmax(np.abs(A[c:, c])))
        A[[c, p]] = A[[p, c]]
        A[c] /= A[c, c]
        for r in range(n):
            if r != c:
                A[r] -= A[r, c] * A[c]
    return A[:, n:]


def components(amb, F, rank):
    F = np.array(F, dtype=float)
    if F.ndim == 2:
        return _apply(amb, _inv(F), rank)
    return np.array([_apply(amb[i], _inv(F[i]), rank) for i in range(F.shape[0])])


def _c(i, a):
    c, s = np.cos(a), np.sin(a)
    return np.array([
        [[1, 0, 0], [0, c, s], [0, -s, c]],
        [[c, 0, -s], [0, 1, 0], [s, 0, c]],
        [[c, s, 0], [-s, c, 0], [0, 0, 1]],
    ][i])


def rotation_ref(kind, angles, order):
    """Direction cosine matrix of three successive rotations."""
    idx = ["XYZ".index(o) for o in order]
    m = [_c(i, a) for i, a in zip(idx, angles)]
    return m[2] @ m[1] @ m[0] if kind == "Body" else m[0] @ m[1] @ m[2]


# ---- numeric material ----------------------------------------------------
def good(axes):
    A = np.asarray(axes, dtype=float)
    if not np.all(np.isfinite(A)):
        return False
    for M in A.reshape(-1, A.shape[-2], A.shape[-1]):
        sv = np.linalg.svd(M, compute_uv=False)
        if sv[-1] < 0.05 or sv[0] > 40 or sv[0] / sv[-1] > 40:
            return False
    return True


def make_axes(spec, dim, n=None):
    """spec: {"k": kind, "s": seed}."""
    rs = np.random.RandomState(spec["s"])

    def one():
        k = spec["k"]
        Q, _ = np.linalg.qr(rs.randn(dim, dim))
        if k == "eye":
            return np.eye(dim)
        if k == "orth":
            return Q
        if k == "rect":
            return np.diag(rs.uniform(0.5, 3, dim)) @ Q
        if k == "scale":
            return np.eye(dim) * float(rs.choice([0.5, 2.0, 3.0, -1.0]))
        if k == "int":
            A = np.eye(dim)
            A[0, -1] = rs.randint(-2, 3)
            return A
        for _ in range(50):
            A = np.round(rs.uniform(-2, 2, (dim, dim)), 3)
            if good(A):
                return A
        return Q

    return one() if n is None else np.array([one() for _ in range(n)])


def dress(a, how):
    """The same numbers, presented the way different callers do."""
    a = np.array(a)
    if how == "F":
        return np.asfortranarray(a)
    if how == "view":
        b = np.zeros((2 * a.shape[0],) + a.shape[1:], dtype=a.dtype)
        b[::2] = a
        return b[::2]
    if how == "T":
        return np.ascontiguousarray(np.swapaxes(a, -1, -2)).swapaxes(-1, -2) if a.ndim > 1 else a
    if how == "list":
        return a.tolist()
    if how == "int" and np.all(a == np.round(a)):
        return a.astype(int)
    if how == "f4" and np.all(a == a.astype(np.float32)):
        return a.astype(np.float32)
    return a


class FRec:
    def __init__(self, obj, axes, kind, n):
        self.obj, self.axes, self.kind, self.n = obj, np.array(axes, dtype=float), kind, n

    @property
    def dim(self):
        return self.axes.shape[-1]


class TRec:
    def __init__(self, obj, amb, rank, frame, cls, bulk):
        self.obj, self.amb, self.rank, self.frame = obj, np.array(amb, dtype=float), rank, frame
        self.cls, self.bulk = cls, bulk


TENSORS = {
    # name: (rank, data dims)
    "V": (1, 0), "Vb": (1, 1),
    "T1": (1, 0), "T2g": (2, 0), "T3": (3, 0),
    "T2": (2, 0), "T2b": (2, 1),
    "X": (2, 0), "Xb": (2, 1), "Xbb": (2, 2),
    "D": (4, 0), "Db": (4, 1), "Dbb": (4, 2),
    "E": (4, 0), "Eb": (4, 1),
}


class World:
    def __init__(self, case, ctx, kinds):
        self.case, self.ctx, self.kinds = case, ctx, kinds
        self.frames, self.tensors = [], []
        self.lent = []  # (array handed to / received from the code, its contents)
        self.failed = 0
        self.n_op = 0

    # ---- verdicts ------------------------------------------------------
    def bad(self, kind, detail):
        if kind in self.kinds:
            self.ctx.fail(kind, detail() if callable(detail) else detail)
        raise StopRun(f"{kind} is not this property's business")

    def need(self, cond, kind, detail):
        if not cond:
            self.bad(kind, detail)

    # ---- running -------------------------------------------------------
    def run(self):
        RT.reset()
        c = self.case
        if c.get("par"):
            RT.threads = c["par"]["threads"]
            RT.sched_spec = c["par"]["spec"]
            RT.chunk = c["par"].get("chunk")
        try:
            for op in c["ops"]:
                self.n_op += 1
                name = op[0]
                done = getattr(self, "op_" + name)(*op[1:])
                if done is False:
                    self.ctx.probe("skipped")
                    continue
                self.ctx.probe("op_" + name)
                self.ctx.sig.append(name if done is None else f"{name}:{done}")
                self.verify(f"after step {self.n_op} {op}")
            self.final()
            for s in RT.sigs:
                self.ctx.sig.append(s)
            self.ctx.steps += RT.steps
            self.ctx.ev("end", len(self.frames), len(self.tensors), [float(np.sum(t.amb)) for t in self.tensors], tuple(RT.sigs))
        finally:
            RT.reset()
            sys.settrace(None)

    def attempt(self, fn, what, fault=None, die=None):
        """Run fn; returns (ok, value).  With a fault planned, failing is fine."""
        RT.kernel_calls = 0
        RT.fired = 0
        RT.fault_at = fault
        if die is not None:
            self._arm_death(*die)
        try:
            out = fn()
            return True, out
        except Exception as e:
            if RT.fired:
                self.ctx.fault("kernel_failure")
                self.ctx.ev("failed", what[:60], RT.kernel_calls)
                return False, e
            self.bad("unexpected-error", lambda: f"{what}: {type(e).__name__}: {e}")
        finally:
            if die is not None:
                sys.settrace(None)
            RT.fault_at = None

    def _arm_death(self, at, victim):
        """Drop the last reference to a tensor at the at-th traced line."""
        count = [0]
        world = self

        def local(frame, event, arg):
            if event == "line":
                count[0] += 1
                if count[0] == at and world.tensors:
                    t = world.tensors.pop(victim % len(world.tensors))
                    t.obj = None
                    world.ctx.fault("object_death_mid_update")
                    world.ctx.ev("death", frame.f_code.co_name)
                    sys.settrace(None)
                    return None
            return local

        def glob(frame, event, arg):
            if frame.f_code.co_filename.startswith(S.PKG_MARK):
                return local
            return None

        sys.settrace(glob)

    # ---- lookups -------------------------------------------------------
    def F(self, i):
        return self.frames[i % len(self.frames)] if self.frames else None

    def T(self, i):
        return self.tensors[i % len(self.tensors)] if self.tensors else None

    def members(self, f):
        return [t for t in self.tensors if t.frame is f]

    # ---- oracle --------------------------------------------------------
    def close(self, a, b):
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if a.shape != b.shape:
            return False
        if not np.all(np.isfinite(a)):
            return False
        tol = RTOL if b.ndim > 3 else RTOL / 20
        return a.size == 0 or np.max(np.abs(a - b)) <= tol * (1.0 + np.max(np.abs(b)))

    def verify(self, where):
        for k, f in enumerate(self.frames):
            self.need(
                self.close(f.obj.axes, f.axes), "frame-changed",
                lambda: f"{where}: axes of frame {k} are {np.array(f.obj.axes).tolist()}, expected {f.axes.tolist()}",
            )
        for k, t in enumerate(self.tensors):
            self.need(t.obj.frame is t.frame.obj, "wrong-frame", lambda: f"{where}: tensor {k} ({t.cls}) is not attached to the frame it was given")
            self.need(t.obj.rank == t.rank and bool(t.obj.is_bulk()) == t.bulk, "wrong-result",
                      lambda: f"{where}: tensor {k} ({t.cls}) calls itself a {'stack' if t.obj.is_bulk() else 'single'} of rank {t.obj.rank}")
            got = ambient(t.obj.array, t.frame.axes, t.rank)
            self.need(
                self.close(got, t.amb), "not-objective",
                lambda: f"{where}: tensor {k} ({t.cls}) is now {got.ravel()[:4].tolist()}.. in the ambient frame, expected {t.amb.ravel()[:4].tolist()}..",
            )
        for a, was in self.lent:
            self.need(np.array_equal(a, was), "caller-data-changed", lambda: f"{where}: an array that belongs to the caller was modified")
        if self.tensors:
            t = self.tensors[self.n_op % len(self.tensors)]
            self.check_show(t, where)

    def check_show(self, t, where):
        got = t.obj.show()
        self.need(self.close(got, t.amb), "show-mismatch", lambda: f"{where}: {t.cls}.show() gives {np.ravel(got)[:4]}.., expected {t.amb.ravel()[:4]}..")

    def final(self):
        for k, t in enumerate(self.tensors):
            self.check_show(t, f"at the end, tensor {k}")
        for k, f in enumerate(self.frames):
            o = f.obj
            self.need(
                np.allclose(np.array(o.tolist()), f.axes) and np.isclose(float(o.sum()), f.axes.sum()), "stale-view",
                lambda: f"array methods of frame {k} see {o.tolist()}, its axes are {f.axes.tolist()}",
            )
        for k, t in enumerate(self.tensors):
            self.need(np.array_equal(np.array(t.obj.tolist()), np.array(t.obj.array)), "stale-view", f"array methods of tensor {k} see stale components")

    # ---- creation ------------------------------------------------------
    def op_frame(self, kind, dim, n, spec, how):
        from sigmaepsilon.math.linalg import CartesianFrame, RectangularFrame, ReferenceFrame

        if kind != "R":
            n = None
        sp = dict(spec)
        if kind == "C":
            sp["k"] = "orth" if spec["k"] not in ("eye", "orth") else spec["k"]
        elif kind == "Q":
            sp["k"] = "rect" if spec["k"] not in ("eye", "orth", "rect", "scale") else spec["k"]
        A = make_axes(sp, dim, n)
        src = dress(A, how)
        cls = {"R": ReferenceFrame, "Q": RectangularFrame, "C": CartesianFrame}[kind]
        if spec["k"] == "eye" and how in ("list", "int", "F") and (n is None or kind == "R"):
            size = dim if n is None and how == "list" else (dim,) if n is None else (n, dim)
            fn = lambda: cls(dim=size)
        elif how == "list":
            src = np.array(src)
            fn = lambda: cls(src)
        else:
            fn = lambda: cls(src)
        _, obj = self.attempt(fn, f"{cls.__name__}({sp})")
        self.lend(src)
        self.frames.append(FRec(obj, A, kind, n))

    def lend(self, a):
        if isinstance(a, np.ndarray):
            self.lent.append((a, a.copy()))
            del self.lent[:-12]

    def op_scribble(self, i):
        """The caller overwrites an array it once passed in or got back."""
        if not self.lent:
            return False
        a, was = self.lent[i % len(self.lent)]
        if not a.flags.writeable:
            return False
        a[...] = 7
        was[...] = 7
        self.ctx.fault("caller_overwrites_array")

    def op_tensor(self, fi, cls, seed, how, m):
        from sigmaepsilon.math.linalg import Tensor, Tensor2, Vector
        from sigmaepsilon.math.linalg.tensor import Tensor2x3, Tensor4, Tensor4x3

        f = self.F(fi)
        if f is None:
            return False
        rank, data = TENSORS[cls]
        if cls[0] in "XD" and f.dim != 3:
            return False
        if cls[0] == "E" and f.dim != 2 and self.n_op % 4:  # any dimension, but 3 is slow and covered by "D"
            return False
        if f.n is not None and (data == 0 or cls in ("T1", "T2g", "T3")):
            return False
        if cls == "Dbb" and f.n is None:
            return False
        lead = () if data == 0 else ((f.n or m,) if data == 1 else (f.n or m, 2))
        rs = np.random.RandomState(seed)
        arr = np.round(rs.uniform(-3, 3, lead + (f.dim,) * rank), 2)
        if how == "int":
            arr = np.round(arr)
        src = dress(arr, how)
        K = {"V": Vector, "Vb": Vector, "T1": Tensor, "T2g": Tensor, "T3": Tensor, "T2": Tensor2, "T2b": Tensor2,
             "X": Tensor2x3, "Xb": Tensor2x3, "Xbb": Tensor2x3, "D": Tensor4x3, "Db": Tensor4x3, "Dbb": Tensor4x3, "E": Tensor4, "Eb": Tensor4}[cls]
        kw = {"bulk": True} if cls in ("T2b", "Eb") else {}
        if isinstance(src, list) and cls not in ("V",):
            src = np.array(src)
        if seed % 13 == 0 and isinstance(src, np.ndarray) and cls != "Dbb":
            # no frame given: the tensor lives in an ambient frame of its own
            _, obj = self.attempt(lambda: K(src, **kw), f"new {cls} without a frame")
            self.lend(src)
            known = [g.obj for g in self.frames]
            self.need(all(obj.frame is not g for g in known), "wrong-frame", f"new {cls} without a frame: got the frame of another object")
            f = FRec(obj.frame, np.eye(f.dim), "R", None)
            self.frames.append(f)
            self.tensors.append(TRec(obj, arr, rank, f, cls, data > 0))
            return "frameless"
        _, obj = self.attempt(lambda: K(src, frame=f.obj, **kw), f"new {cls}")
        self.lend(src)
        self.tensors.append(TRec(obj, ambient(arr, f.axes, rank), rank, f, cls, data > 0))

    # ---- destruction ---------------------------------------------------
    def op_drop(self, i):
        if not self.tensors:
            return False
        t = self.tensors.pop(i % len(self.tensors))
        t.obj = None
        self.ctx.fault("object_death")

    def op_dropframe(self, i):
        """Forget a frame nobody else of ours refers to (its tensors keep it)."""
        f = self.F(i)
        if f is None or len(self.frames) < 2 or self.members(f):
            return False
        self.frames.remove(f)

    def op_gc(self):
        gc.collect()

    # ---- in-place changes of a frame -----------------------------------
    def change(self, f, new, fn, what, kind=None, fault=None, die=None, rebind=False):
        """Apply fn, which should turn f's axes into `new`."""
        new = np.array(new, dtype=float)
        if new.shape != f.axes.shape or not good(new):
            return False
        before = self.snapshot() if fault is not None else None
        ok, out = self.attempt(fn, what, fault, die)
        if not ok:
            self.unchanged(before, what)
            self.failed += 1
            return "failed"
        if rebind:
            self.need(type(out).__name__ == {"R": "ReferenceFrame", "Q": "RectangularFrame", "C": "CartesianFrame"}[kind or f.kind],
                      "frame-type", lambda: f"{what}: result is a {type(out).__name__}")
            if out is not f.obj:
                old = f.obj
                if self.n_op % 2:  # the caller still holds the old frame
                    self.frames.append(FRec(old, f.axes, f.kind, f.n))
                f.obj = out
                if kind:
                    f.kind = kind
        f.axes = new
        self.ctx.probe("tensors_carried", len(self.members(f)))
        return "ok"

    def op_axes(self, i, spec, how, fault=None, die=None):
        f = self.F(i)
        if f is None:
            return False
        sp = dict(spec)
        if f.kind == "C":
            sp["k"] = "orth"
        elif f.kind == "Q":
            sp["k"] = "rect"
        if sp.pop("near", False) and f.kind == "R":
            # a change too small to be seen by a loose comparison
            A = f.axes * (1 + 9e-6 * np.random.RandomState(sp["s"]).choice([-1, 1, 1], f.axes.shape))
            how = how if how not in ("int", "list") else "C"
        else:
            A = make_axes(sp, f.dim, f.n)
        src = dress(A, how)
        r = self.change(f, A, lambda: setattr(f.obj, "axes", src), f"axes={sp}/{how}", fault=fault, die=die)
        self.lend(src)
        return r

    def op_scalar(self, i, o, v, fault=None, die=None):
        f = self.F(i)
        if f is None:
            return False
        kind = f.kind
        if o in ("*", "/"):
            new = f.axes * v if o == "*" else f.axes / v
            kind = "Q" if f.kind in "CQ" else "R"
        elif o in ("+", "-"):
            new = f.axes + v if o == "+" else f.axes - v
            kind = "R"
        else:
            new = np.power(f.axes, v)
            kind = "R"

        def fn():
            x = f.obj
            if o == "*":
                x *= v
            elif o == "/":
                x /= v
            elif o == "+":
                x += v
            elif o == "-":
                x -= v
            else:
                x **= v
            return x

        return self.change(f, new, fn, f"frame {o}= {v}", kind, fault, die, rebind=True)

    def op_matrix(self, i, o, spec, fault=None, die=None):
        f = self.F(i)
        if f is None:
            return False
        M = make_axes(spec, f.dim, f.n if o != "@" else None)
        new = {"@": lambda: f.axes @ M, "+": lambda: f.axes + M, "-": lambda: f.axes - M,
               "*": lambda: f.axes * (M + 3), "/": lambda: f.axes / (M + 3)}[o]()
        src = M.copy() if o in "@+-" else M + 3

        def fn():
            x = f.obj
            if o == "@":
                x @= src
            elif o == "+":
                x += src
            elif o == "-":
                x -= src
            elif o == "*":
                x *= src
            else:
                x /= src
            return x

        r = self.change(f, new, fn, f"frame {o}= matrix", "R", fault, die, rebind=True)
        self.lend(src)
        return r

    def op_orient(self, i, kind, angles, order, alias, fault=None, die=None):
        f = self.F(i)
        if f is None or f.dim != 3:
            return False
        new = f.axes @ rotation_ref(kind, angles, order)
        fn = (lambda: f.obj.rotate(kind, angles, order)) if alias else (lambda: f.obj.orient(kind, angles, order))
        return self.change(f, new, fn, f"orient {kind} {order}", None, fault, die)

    def op_ftranspose(self, i, fault=None, die=None):
        f = self.F(i)
        if f is None or f.kind == "Q":
            return False
        return self.change(f, np.swapaxes(f.axes, -1, -2), lambda: f.obj.transpose(inplace=True), "transpose frame", None, fault, die)

    def op_ufunc(self, i, u, spec, fault=None, die=None):
        f = self.F(i)
        if f is None or f.kind != "R":
            return False
        M = make_axes(spec, f.dim, f.n)
        new = {"add": f.axes + M, "multiply": f.axes * (M + 3), "negative": -f.axes, "matmul": f.axes @ M}[u]

        def fn():
            if u == "add":
                np.add(f.obj, M, out=f.obj)
            elif u == "multiply":
                np.multiply(f.obj, M + 3, out=f.obj)
            elif u == "matmul":
                np.matmul(f.obj, M, out=f.obj)
            else:
                np.negative(f.obj, out=f.obj)

        return self.change(f, new, fn, f"np.{u}(out=frame)", None, fault, die)

    def op_setitem(self, i, r, c, v, fault=None, die=None):
        f = self.F(i)
        if f is None or f.kind != "R":
            return False
        new = f.axes.copy()
        key = (..., r % f.dim, c % f.dim)
        new[key] = v

        def fn():
            f.obj[key] = v

        return self.change(f, new, fn, f"frame[{r},{c}]={v}", None, fault, die)

    def op_setrow(self, i, r, seed, how, fault=None, die=None):
        """Rows, columns, slices and masks of a frame are assigned."""
        f = self.F(i)
        if f is None:
            return False
        rs = np.random.RandomState(seed)
        r = r % f.dim
        new = f.axes.copy()
        if f.kind == "C":
            key, v = (..., r, slice(None)), -f.axes[..., r, :]
        elif f.kind == "Q":
            key, v = (..., r, slice(None)), f.axes[..., r, :] * 1.5
        elif how == "row":
            key, v = (..., r, slice(None)), np.round(rs.uniform(-2, 2, f.dim), 2)
        elif how == "neg":
            key, v = (..., r - f.dim, slice(None)), np.round(rs.uniform(-2, 2, f.dim), 2).tolist()
        elif how == "col":
            key, v = (..., slice(None), r), np.round(rs.uniform(-2, 2, f.dim), 2)
        elif how == "all":
            key, v = slice(None), make_axes({"k": "skew", "s": seed}, f.dim, f.n)
        elif how == "mask":
            key, v = np.abs(f.axes) < 0.5, 0.75
        else:
            key, v = (..., slice(0, 2), slice(0, 2)), np.round(rs.uniform(-2, 2, (2, 2)), 2)
        new[key] = v

        def fn():
            f.obj[key] = v

        r = self.change(f, new, fn, f"frame[{how}]=..", None, fault, die)
        self.lend(v)
        return r

    def op_fchop(self, i, tol, fault=None, die=None):
        f = self.F(i)
        if f is None:
            return False
        if f.kind == "C":
            tol = min(tol, 1e-9)
        new = np.where(np.abs(np.array(f.obj.axes)) < tol, 0.0, f.axes)
        if f.kind == "Q":
            g = new @ new.T
            if np.max(np.abs(g - np.diag(np.diag(g)))) > 1e-9:
                return False
        return self.change(f, new, lambda: f.obj.chop(tol), f"chop({tol})", None, fault, die)

    # ---- in-place changes of a tensor ----------------------------------
    def op_titem(self, ti, seed, how):
        t = self.T(ti)
        if t is None:
            return False
        rs = np.random.RandomState(seed)
        comp = np.array(t.obj.array)
        if how == "chop":
            tol = float(rs.choice([0.4, 1.0]))
            new = np.where(np.abs(comp) < tol, 0.0, comp)
            fn = lambda: t.obj.chop(tol)
        else:
            v = round(float(rs.uniform(-3, 3)), 2)
            if how == "item":
                key = tuple(int(rs.randint(k)) for k in comp.shape)
            elif how == "row":
                key = int(rs.randint(comp.shape[0]))
                v = np.round(rs.uniform(-3, 3, comp.shape[1:]), 2)
            else:
                key = (..., slice(0, 2))
            new = comp.copy()
            new[key] = v

            def fn():
                t.obj[key] = v

        self.attempt(fn, f"tensor item ({how})")
        t.amb = ambient(new, t.frame.axes, t.rank)

    def guarded(self, fn, what, fault):
        before = self.snapshot() if fault is not None else None
        ok, out = self.attempt(fn, what, fault)
        if not ok:
            self.unchanged(before, what)
            self.failed += 1
        return ok, out

    def fits(self, t, f):
        if f.dim != t.frame.dim:
            return False
        if t.frame.n is not None and f.n is None:
            return False if t.cls == "Dbb" else True
        if f.n is not None:
            return t.bulk and t.amb.shape[0] == f.n
        return True

    def op_move(self, ti, fi, as_array, fault=None):
        t, f = self.T(ti), self.F(fi)
        if t is None or f is None or not self.fits(t, f):
            return False
        if as_array:
            src = f.axes.copy()
            ok, _ = self.guarded(lambda: setattr(t.obj, "frame", src), "tensor.frame = array", fault)
            if not ok:
                return "failed"
            self.lend(src)
            new = FRec(t.obj.frame, src, "R", f.n)
            self.frames.append(new)
            t.frame = new
        else:
            ok, _ = self.guarded(lambda: setattr(t.obj, "frame", f.obj), "tensor.frame = frame", fault)
            if not ok:
                return "failed"
            t.frame = f
        return "ok"

    def op_tscalar(self, ti, o, v):
        t = self.T(ti)
        if t is None:
            return False
        comp = components(t.amb, t.frame.axes, t.rank)
        new = {"*": comp * v, "/": comp / v, "+": comp + v, "-": comp - v}[o]

        def fn():
            x = t.obj
            if o == "*":
                x *= v
            elif o == "/":
                x /= v
            elif o == "+":
                x += v
            else:
                x -= v
            return x

        _, out = self.attempt(fn, f"tensor {o}= {v}")
        self.need(out is t.obj, "wrong-result", f"tensor {o}= number returned another object")
        t.amb = ambient(new, t.frame.axes, t.rank)
        self.tame(t)

    def tame(self, t):
        """Keep magnitudes moderate so that tolerances mean something."""
        if np.max(np.abs(t.amb), initial=0) > 1e4:
            t.obj.array = np.array(t.obj.array) / 1e4
            t.amb = t.amb / 1e4

    def op_tadd(self, ti, ui, o, fault=None):
        t, u = self.T(ti), self.T(ui)
        if t is None or t.cls != u.cls or t.amb.shape != u.amb.shape or not self.fits(u, t.frame):
            return False

        def fn():
            x = t.obj
            if o == "+":
                x += u.obj
            else:
                x -= u.obj
            return x

        new = t.amb + u.amb if o == "+" else t.amb - u.amb
        ok, out = self.guarded(fn, f"tensor {o}= tensor", fault)
        if not ok:
            return "failed"
        self.need(out is t.obj, "wrong-result", f"tensor {o}= tensor returned another object")
        t.amb = new
        self.tame(t)
        return "ok"

    def op_tset(self, ti, seed, how):
        t = self.T(ti)
        if t is None:
            return False
        arr = np.round(np.random.RandomState(seed).uniform(-3, 3, t.amb.shape), 2)
        src = dress(arr, how)
        self.attempt(lambda: setattr(t.obj, "array", src), "tensor.array = ..")
        self.lend(src)
        t.amb = ambient(arr, t.frame.axes, t.rank)

    def op_torient(self, ti, kind, angles, order, fault=None):
        t = self.T(ti)
        if t is None or t.frame.dim != 3:
            return False
        comp = components(t.amb, t.frame.axes, t.rank)
        R = rotation_ref(kind, angles, order)
        new = _apply(comp, R, t.rank)
        if t.cls in ("Dbb",):
            return False
        if t.cls in ("V", "Vb") and self.n_op % 3 == 0:
            src = R.copy()
            ok, out = self.guarded(lambda: t.obj.orient(dcm=src), "vector.orient(dcm)", fault)
            self.lend(src)
        else:
            ok, out = self.guarded(lambda: t.obj.orient(kind, angles, order), "tensor.orient", fault)
        if not ok:
            return "failed"
        self.need(out is t.obj, "wrong-result", "orient did not return the tensor it was called upon")
        t.amb = ambient(new, t.frame.axes, t.rank)
        return "ok"

    def op_ttranspose(self, ti):
        t = self.T(ti)
        if t is None:
            return False
        self.attempt(lambda: t.obj.transpose(inplace=True), "tensor.transpose(inplace)")
        t.amb = self.t_ref(t)

    def t_ref(self, t):
        off = t.amb.ndim - t.rank
        order = list(range(off)) + list(range(off, t.amb.ndim))[::-1]
        return np.transpose(t.amb, order)

    # ---- reading -------------------------------------------------------
    def op_show(self, ti, fi, dcm):
        t, f = self.T(ti), self.F(fi)
        if t is None or f is None or not self.fits(t, f):
            return False
        want = components(t.amb, f.axes, t.rank)
        if dcm == 1:
            _, got = self.attempt(lambda: t.obj.show(dcm=t.frame.obj.dcm(target=f.obj)), "show(dcm)")
        elif dcm == 2:
            if t.frame.n is not None or f.n is not None:
                return False
            _, got = self.attempt(lambda: t.obj.show(dcm=f.obj.dcm(source=t.frame.obj)), "show(dcm source)")
        else:
            _, got = self.attempt(lambda: t.obj.show(f.obj), "show(frame)")
        self.need(self.close(got, want), "show-mismatch", lambda: f"{t.cls} in another frame: {np.ravel(got)[:4]}.., expected {np.ravel(want)[:4]}..")
        self.lend(np.asarray(got)) if isinstance(got, np.ndarray) else None

    def op_close(self, ti, ui, ai, bi):
        """Comparing tensors compares what they are, not their components."""
        t, u = self.T(ti), self.T(ui)
        if t is None or t.amb.shape != u.amb.shape or t.rank != u.rank:
            return False
        near = np.abs(t.amb - u.amb) <= 1e-8 + 1e-5 * np.abs(u.amb)
        wide = np.abs(t.amb - u.amb) <= 0.5
        # leave out what is too close to call
        clear = np.abs(np.abs(t.amb - u.amb) - (1e-8 + 1e-5 * np.abs(u.amb))) > 1e-6 * (1 + np.abs(u.amb))
        clearw = np.abs(np.abs(t.amb - u.amb) - 0.5) > 1e-6 * (1 + np.abs(u.amb))
        same = t is u
        if (same or np.all(clear)) and ai:
            want = bool(np.all(near)) or same
            _, got = self.attempt(lambda: np.allclose(t.obj, u.obj), "np.allclose of two tensors")
            self.need(bool(got) == want, "wrong-result", lambda: f"np.allclose of a {t.cls} and a {u.cls} is {got}, expected {want}")
        if np.all(clearw) and bi:
            _, got = self.attempt(lambda: np.isclose(t.obj, u.obj, rtol=0.0, atol=0.5), "np.isclose of two tensors")
            self.need(np.array_equal(np.asarray(got), wide), "wrong-result", lambda: f"np.isclose of a {t.cls} and a {u.cls} is wrong")
        if ai:
            want = t.amb.copy()
            _, got = self.attempt(lambda: np.allclose(t.obj, t.obj.copy()), "np.allclose of a tensor and its copy")
            self.need(bool(got), "wrong-result", lambda: f"np.allclose of a {t.cls} and its copy is {got}")
        return "ok"

    def op_fshow(self, i, j):
        f, g = self.F(i), self.F(j)
        if f is None or f.dim != g.dim:
            return False
        if f.n is not None or g.n is not None:
            if f.n is not None and g.n is not None and f.n != g.n:
                return False
            m = f.n or g.n
            one = lambda a, k: a[k] if a.ndim == 3 else a
            want = np.array([one(f.axes, k) @ _inv(one(g.axes, k)) for k in range(m)])
            _, got = self.attempt(lambda: f.obj.show(g.obj), "frame.show(target)")
            self.need(self.close(got, want), "dcm-mismatch", "components of stacked frames in another frame")
            return "bulk"
        # rows of F in terms of G: F = X G
        want = f.axes @ _inv(g.axes)
        _, got = self.attempt(lambda: g.obj.dcm(target=f.obj), "dcm")
        _, shown = self.attempt(lambda: f.obj.show(g.obj), "frame.show(target)")
        self.need(self.close(shown, want), "dcm-mismatch", lambda: f"components of a frame in another one: {np.array(shown).tolist()}, expected {want.tolist()}")
        _, own = self.attempt(lambda: f.obj.dcm() if self.n_op % 2 else f.obj.show(), "dcm of the frame itself")
        self.need(self.close(own, f.axes), "dcm-mismatch", "dcm without arguments")
        self.need(not np.shares_memory(np.asarray(own), np.asarray(f.obj.axes)), "dcm-mismatch", "dcm without arguments is the frame's own array")
        self.lend(own)
        _, dual = self.attempt(lambda: np.array(f.obj.dual().axes), "dual")
        _, gram = self.attempt(lambda: np.array(f.obj.Gram()), "Gram")
        _, vol = self.attempt(lambda: float(f.obj.volume()), "volume")
        # components transform with the inverse transpose of the basis change
        self.need(self.close(got, _inv(want).T), "dcm-mismatch", "dcm between two frames")
        self.need(self.close(dual, _inv(f.axes).T), "dual-mismatch", "dual frame")
        self.need(self.close(gram, f.axes @ f.axes.T), "gram-mismatch", "Gram matrix")
        self.need(self.close(vol, abs(np.linalg.det(f.axes))), "gram-mismatch", "volume")

    @staticmethod
    def rectangular(A):
        g = A @ np.swapaxes(A, -1, -2)
        off = g - np.eye(g.shape[-1]) * g
        return bool(np.max(np.abs(off)) < 1e-9)

    def op_fprops(self, i, k):
        """What a frame says about itself, and functions of its axes."""
        f = self.F(i)
        if f is None:
            return False
        o = f.obj
        if f.n is None:
            g = f.axes @ f.axes.T
            off = np.max(np.abs(g - np.diag(np.diag(g))))
            unit = np.max(np.abs(np.diag(g) - 1))
            # leave out what is too close to call
            if off < 1e-9 or off > 1e-2:
                got = o.is_rectangular
                self.need(bool(got) == bool(off < 1e-9), "wrong-result", lambda: f"is_rectangular is {got} for axes {f.axes.tolist()}")
            if (off < 1e-9 or off > 1e-2) and (unit < 1e-9 or unit > 1e-2):
                got = o.is_cartesian
                self.need(bool(got) == bool(off < 1e-9 and unit < 1e-9), "wrong-result", lambda: f"is_cartesian is {got} for axes {f.axes.tolist()}")
            self.need(bool(o.is_independent), "wrong-result", lambda: f"axes {f.axes.tolist()} are called dependent")
        # NumPy functions of a frame are functions of its axes
        what = ["sqrt", "out", "add", "norm", "sum", "item", "array"][k % 7]
        A = f.axes
        if what == "sqrt":
            _, got = self.attempt(lambda: np.sin(o), "np.sin(frame)")
            self.need(got is not o and self.close(got.axes, np.sin(A)), "wrong-result", "np.sin(frame)")
        elif what == "out":
            buf = np.zeros_like(A)
            self.attempt(lambda: np.multiply(o, 2.0, out=buf), "np.multiply(frame, 2, out=array)")
            self.need(self.close(buf, 2 * A), "wrong-result", "np.multiply(frame, 2, out=array)")
            self.lend(buf)
        elif what == "add":
            _, got = self.attempt(lambda: np.add(A, o), "np.add(array, frame)")
            self.need(self.close(np.asarray(got.axes), 2 * A), "wrong-result", "np.add(array, frame)")
        elif what == "norm":
            _, got = self.attempt(lambda: np.allclose(o, A), "np.allclose(frame, its axes)")
            self.need(bool(got), "wrong-result", "np.allclose of a frame and its axes")
        elif what == "sum":
            _, got = self.attempt(lambda: np.sum(o, axis=-1), "np.sum(frame)")
            self.need(self.close(got if isinstance(got, np.ndarray) else got.axes, A.sum(axis=-1)), "wrong-result", "np.sum(frame, axis=-1)")
        elif what == "item":
            got = o[..., 0, :]
            self.need(self.close(got, A[..., 0, :]) and len(o) == len(A) and self.close(o.minmax, [A.min(), A.max()]), "wrong-result", "items of a frame")
        else:
            self.need(self.close(np.array(o), A) and self.close(o.to_numpy(), A), "wrong-result", "a frame as an array")
        return what

    def op_metric(self, i):
        f = self.F(i)
        if f is None or f.n is not None:
            return False
        _, obj = self.attempt(lambda: f.obj.metric_tensor(), "metric tensor")
        self.adopt(obj, ambient(f.axes @ f.axes.T, f.axes, 2), 2, "T2g", False, FRec(f.obj, f.axes, f.kind, f.n), "metric tensor")
        self.need(obj.frame is f.obj, "wrong-frame", "metric tensor: not in the frame it belongs to")

    def op_fname(self, i, name):
        f = self.F(i)
        if f is None:
            return False
        f.obj.name = name
        self.need(f.obj.name == name, "wrong-result", lambda: f"a frame named {name} is called {f.obj.name}")
        c = copy.copy(f.obj)
        self.need(c.name == name, "wrong-result", lambda: f"a copy of a frame named {name} is called {c.name}")

    # ---- derived objects -----------------------------------------------
    def adopt(self, obj, amb, rank, cls, bulk, src, what, share=None):
        """Register a derived tensor; its frame may be shared or its own."""
        fo = obj.frame
        rec = next((f for f in self.frames if f.obj is fo), None)
        if share is True:
            self.need(rec is src.frame, "wrong-frame", f"{what}: expected to share the frame of its source")
        elif share is False:
            self.need(rec is None, "not-isolated", f"{what}: shares its frame with an existing object")
        if rec is None:
            ax = np.array(fo.axes, dtype=float)
            kind = {"ReferenceFrame": "R", "RectangularFrame": "Q", "CartesianFrame": "C"}[type(fo).__name__]
            rec = FRec(fo, ax, kind, ax.shape[0] if ax.ndim == 3 else None)
            if not good(ax):
                return
            self.frames.append(rec)
        for o in self.tensors:
            self.need(not np.shares_memory(np.asarray(obj.array), np.asarray(o.obj.array)), "not-isolated", f"{what}: shares its components with an existing tensor")
        self.need(np.shape(obj.array) == np.shape(amb), "wrong-result", lambda: f"{what}: shape {np.shape(obj.array)}, expected {np.shape(amb)}")
        self.tensors.append(TRec(obj, amb, rank, rec, cls, bulk))
        self.check_show(self.tensors[-1], what)
        self.tame(self.tensors[-1])

    def op_copy(self, ti, how, fault=None):
        t = self.T(ti)
        if t is None:
            return False
        fn = {"copy.copy": lambda: copy.copy(t.obj), "copy.deepcopy": lambda: copy.deepcopy(t.obj),
              ".copy": lambda: t.obj.copy(), ".deepcopy": lambda: t.obj.deepcopy(), ".copy(deep)": lambda: t.obj.copy(deep=True)}[how]
        ok, obj = self.guarded(fn, how, fault)
        if not ok:
            return "failed"
        self.need(type(obj) is type(t.obj), "wrong-result", lambda: f"{how}: {type(obj).__name__}")
        self.adopt(obj, t.amb, t.rank, t.cls, t.bulk, t, how, share=None if "deep" not in how else False)
        return "ok"

    def op_derive(self, ti, ui, o, v, fault=None):
        t, u = self.T(ti), self.T(ui)
        if t is None:
            return False
        amb, rank, cls, bulk = t.amb, t.rank, t.cls, t.bulk
        share = None
        if o == "*":
            fn, amb = (lambda: t.obj * v), amb * v
        elif o == "/":
            fn, amb = (lambda: t.obj / v), amb / v
        elif o == "neg":
            fn, amb = (lambda: -t.obj), -amb
        elif o in ("+", "-"):
            if u.cls != t.cls or u.amb.shape != amb.shape or not self.fits(u, t.frame):
                return False
            fn = (lambda: t.obj + u.obj) if o == "+" else (lambda: t.obj - u.obj)
            amb = amb + u.amb if o == "+" else amb - u.amb
        elif o == "T":
            fn, amb = (lambda: t.obj.T), self.t_ref(t)
            share = False
        elif o == "dual":
            if t.cls == "Dbb":
                return False
            fn = lambda: t.obj.dual()
        elif o == "orient_new":
            if t.frame.dim != 3 or t.cls == "Dbb":
                return False
            ang = [v, -v / 2, v / 3]
            comp = components(amb, t.frame.axes, rank)
            amb = ambient(_apply(comp, rotation_ref("Body", ang, "XYZ"), rank), t.frame.axes, rank)
            fn = lambda: t.obj.orient_new("Body", ang, "XYZ")
        else:
            raise AssertionError(o)
        ok, obj = self.guarded(fn, f"derive {o}", fault)
        if not ok:
            return "failed"
        self.adopt(obj, amb, rank, cls, bulk, t, f"derived by {o}", share)
        return "ok"

    def op_product(self, ti, ui, o, ax, into, fault=None):
        from sigmaepsilon.math.linalg import cross, dot

        t, u = self.T(ti), self.T(ui)
        if t is None or t.frame.dim != u.frame.dim:
            return False
        if t.bulk or u.bulk:
            return self.stack_product(t, u, o, into, fault)
        if t.frame.n or u.frame.n:
            return False
        a, b, ra, rb, dim = t.amb, u.amb, t.rank, u.rank, t.frame.dim
        kw = {}
        g = None
        if into is not None:
            g = self.F(into)
            if g.dim != dim or g.n is not None:
                return False
            kw = {"frame": g.obj}
        if o == "cross":
            if dim != 3 or (ra, rb) not in ((1, 1), (2, 1), (1, 2)) or (t.cls == "T1" and False):
                return False
            if ra == 1 and rb == 1:
                amb = np.cross(a, b)
            elif ra == 2:
                amb = np.stack([np.cross(a[:, j], b) for j in range(3)], axis=1)
            else:
                amb = np.stack([np.cross(a, b[:, j]) for j in range(3)], axis=1)
            fn = (lambda: cross(t.obj, u.obj, **kw)) if g or ax % 2 else (lambda: np.cross(t.obj, u.obj))
            rank = max(ra, rb)
        else:
            if (ra, rb) in ((1, 1), (2, 1), (1, 2), (2, 2)):
                amb = a @ b
                f_dot = dot if kw or ax % 2 else np.dot
                fn = lambda: f_dot(t.obj, u.obj, **kw) if (ra, rb) != (1, 1) else f_dot(t.obj, u.obj)
                rank = ra + rb - 2
            else:
                if t.cls in ("V",) or ra + rb > 6:
                    return False
                axes = (ax % ra, (ax // 5) % rb)
                amb = np.tensordot(a, b, axes=([axes[0]], [axes[1]]))
                fn = lambda: dot(t.obj, u.obj, axes=axes, **kw)
                rank = ra + rb - 2
                if rank > 4 and dim > 3:
                    return False
        ok, obj = self.guarded(fn, f"{o} {t.cls},{u.cls}", fault)
        if not ok:
            return "failed"
        what = f"{o}({t.cls}, {u.cls})"
        if rank == 0:
            self.need(self.close(float(obj), float(amb)), "wrong-result", lambda: f"{what} = {obj}, expected {amb}")
            return "scalar"
        if rank > 3 and type(obj).__name__ not in ("Tensor4x3",) and rank != 4:
            got = ambient(obj.array, obj.frame.axes, rank)
            self.need(self.close(got, amb), "wrong-result", f"{what}: wrong value")
            return "big"
        if g is not None:
            self.need(obj.frame is g.obj, "wrong-frame", f"{what}: not returned in the requested frame")
        name = type(obj).__name__
        cls = {"Vector": "V", "Tensor2": "T2", "Tensor2x3": "X", "Tensor4x3": "D", "Tensor": {1: "T1", 2: "T2g", 3: "T3"}.get(rank, "T3")}.get(name, "T3")
        got = ambient(obj.array, np.array(obj.frame.axes), rank)
        self.need(self.close(got, amb), "wrong-result", lambda: f"{what} = {got.ravel()[:4]}.. in the ambient frame, expected {np.ravel(amb)[:4]}..")
        if rank <= 3:
            self.adopt(obj, amb, rank, cls, False, t, what)
        return "ok"

    def stack_product(self, t, u, o, into, fault):
        """Products of stacks are taken item by item."""
        from sigmaepsilon.math.linalg import cross, dot

        dim, ra, rb = t.frame.dim, t.rank, u.rank
        if ra > 2 or rb > 2 or {t.cls, u.cls} & {"Xbb", "T1", "T2g"} or (t.frame.n and not u.bulk):
            return False
        if t.bulk and u.bulk and len(t.amb) != len(u.amb):
            return False
        if o == "cross" and (dim != 3 or (ra, rb) == (2, 2)):
            return False
        kw = {}
        g = self.F(into) if into is not None and (ra, rb) != (1, 1) else None
        n = len(t.amb) if t.bulk else len(u.amb)
        if g is not None:
            if g.dim != dim or g.n not in (None, n):
                return False
            kw = {"frame": g.obj}
        items = []
        for k in range(n):
            a, b = (t.amb[k] if t.bulk else t.amb), (u.amb[k] if u.bulk else u.amb)
            if o == "dot":
                items.append(a @ b)
            elif ra == rb:
                items.append(np.cross(a, b))
            elif ra == 2:
                items.append(np.stack([np.cross(a[:, j], b) for j in range(3)], axis=1))
            else:
                items.append(np.stack([np.cross(a, b[:, j]) for j in range(3)], axis=1))
        amb = np.array(items)
        what = f"{o} of stacks ({t.cls}, {u.cls})"
        ok, obj = self.guarded(lambda: (dot if o == "dot" else cross)(t.obj, u.obj, **kw), what, fault)
        if not ok:
            return "failed"
        rank = ra + rb - 2 if o == "dot" else max(ra, rb)
        if rank == 0:
            self.need(self.close(obj, amb), "wrong-result", lambda: f"{what} = {np.array(obj).tolist()}, expected {amb.tolist()}")
            return "stack of scalars"
        if g is not None:
            self.need(obj.frame is g.obj, "wrong-frame", f"{what}: not returned in the requested frame")
        cls = {"Vector": "Vb", "Tensor2": "T2b", "Tensor2x3": "Xb"}[type(obj).__name__]
        self.adopt(obj, amb, rank, cls, True, t, what)
        return "stack"

    def op_fcopy(self, i, how, v, fault=None):
        from sigmaepsilon.math.linalg import ReferenceFrame

        f = self.F(i)
        if f is None:
            return False
        kind, A = f.kind, f.axes
        if how == "copy":
            fn = lambda: f.obj.copy()
        elif how == "deepcopy":
            fn = lambda: f.obj.deepcopy()
        elif how == "copy.copy":
            fn = lambda: copy.copy(f.obj)
        elif how == "copy.deepcopy":
            fn = lambda: copy.deepcopy(f.obj)
        elif how == "ctor":
            fn, kind = (lambda: ReferenceFrame(f.obj.axes)), "R"
        elif how == "orient_new":
            if f.dim != 3 or f.n is not None:
                return False
            ang = [v, v / 2, -v]
            fn = {0: lambda: f.obj.orient_new("Space", ang, "XYZ"), 1: lambda: f.obj.rotate_new("Space", ang, "XYZ"),
                  2: lambda: f.obj.rotate("Space", ang, "XYZ", inplace=False)}[self.n_op % 3]
            A = A @ rotation_ref("Space", ang, "XYZ")
        elif how == "dual":
            fn = lambda: f.obj.dual()
            A = np.array([_inv(M).T for M in A]) if f.n is not None else _inv(A).T
        elif how == "T":
            if kind == "Q":
                return False
            fn, A = (lambda: f.obj.T), np.swapaxes(A, -1, -2)
        elif how == "*":
            fn, A, kind = (lambda: f.obj * v), A * v, ("Q" if kind in "QC" else "R")
        elif how == "/":
            fn, A, kind = (lambda: f.obj / v), A / v, ("Q" if kind in "QC" else "R")
        elif how == "+":
            fn, A, kind = (lambda: f.obj + v), A + v, "R"
        elif how == "-":
            fn, A, kind = (lambda: v - f.obj), v - A, "R"
        elif how == "neg":
            fn, A, kind = (lambda: -f.obj), -A, "R"
        elif how == "@":
            M = make_axes({"k": "skew", "s": int(v * 100) + self.n_op}, f.dim)
            fn, A, kind = (lambda: f.obj @ M), A @ M, "R"
        elif how == "ff":
            # an operation of two frames
            fn, A, kind = (lambda: np.add(f.obj, f.obj)), A + A, "R"
        else:
            raise AssertionError(how)
        if not good(A):
            return False
        ok, obj = self.guarded(fn, f"frame {how}", fault)
        if not ok:
            return "failed"
        self.need(obj is not f.obj, "not-isolated", f"frame {how} returned the frame itself")
        self.need(hasattr(obj, "axes"), "wrong-result", f"frame {how} returned a {type(obj).__name__}")
        regular = np.allclose(A @ np.swapaxes(A, -1, -2), np.eye(f.dim)) if type(obj).__name__ == "CartesianFrame" else type(obj).__name__ == "ReferenceFrame" or self.rectangular(A)
        self.need(regular, "wrong-result", lambda: f"frame {how}: a {type(obj).__name__} with axes {np.array(A).tolist()}")
        self.need(self.close(obj.axes, A), "wrong-result", lambda: f"frame {how}: axes {np.array(obj.axes).tolist()}, expected {np.array(A).tolist()}")
        self.need(not np.shares_memory(np.asarray(obj.axes), np.asarray(f.obj.axes)), "not-isolated", f"frame {how}: shares its axes with the source")
        n0 = type(obj).__name__
        k = {"ReferenceFrame": "R", "RectangularFrame": "Q", "CartesianFrame": "C"}[n0]
        self.frames.append(FRec(obj, A, k, f.n))
        return "ok"

    # ---- failures that need no injection --------------------------------
    def snapshot(self):
        return (
            [(f, f.obj, np.array(f.obj.axes)) for f in self.frames],
            [(t, t.obj.frame, np.array(t.obj.array)) for t in self.tensors],
        )

    def unchanged(self, before, what):
        fs, ts = before
        for k, (f, obj, ax) in enumerate(fs):
            self.need(np.array_equal(np.array(obj.axes), ax), "half-updated", lambda: f"failed {what}: axes of frame {k} changed")
        for k, (t, fr, arr) in enumerate(ts):
            if t.obj is None:
                continue
            self.need(np.array_equal(np.array(t.obj.array), arr), "half-updated", lambda: f"failed {what}: components of tensor {k} ({t.cls}) changed")
            self.need(t.obj.frame is fr, "half-updated", lambda: f"failed {what}: frame of tensor {k} changed")

    def op_misuse(self, i, j, how, seed):
        """Requests that must be refused, and must then change nothing."""
        from sigmaepsilon.math.linalg import ReferenceFrame, Vector

        f, t = self.F(i), self.T(j)
        if f is None:
            return False
        d = f.dim
        rs = np.random.RandomState(seed)
        extra = None
        if how == "singular":
            if not self.members(f):
                return False
            A = make_axes({"k": "skew", "s": seed}, d, f.n)
            A[..., -1, :] = 0.0
            fn = lambda: setattr(f.obj, "axes", A)
        elif how == "singular_mul":
            if not self.members(f):
                return False

            def fn():
                x = f.obj
                x *= 0.0

        elif how == "singular_matmul":
            if not self.members(f):
                return False
            Z = np.zeros((d, d))

            def fn():
                x = f.obj
                x @= Z

        elif how == "shape":
            A = np.array(f.obj.axes)
            bad = [np.eye(d + 1), np.stack([A, A]), A[None], A[..., :1, :], A[..., 0], A[..., :-1], 2.0, A.ravel(),
                   np.concatenate([A, A], axis=-2), np.zeros((0, d)), A[..., None]]
            A = bad[seed % len(bad)]
            if seed % 3 == 0 and isinstance(A, np.ndarray):
                A = A.tolist()
            fn = lambda: setattr(f.obj, "axes", A)
        elif how == "irregular":
            # a frame that claims to be rectangular or Cartesian stays so
            if f.kind == "R":
                return False
            A = make_axes({"k": "skew", "s": seed}, d)
            g = A @ A.T
            if np.max(np.abs(g - np.diag(np.diag(g)))) < 0.1:
                return False
            if f.kind == "C" and seed % 2:
                A = make_axes({"k": "rect", "s": seed}, d) * 1.7
                if np.max(np.abs(np.linalg.norm(A, axis=1) - 1)) < 0.05:
                    return False
            if seed % 3 == 0:

                def fn():
                    f.obj[:] = A

            else:
                fn = lambda: setattr(f.obj, "axes", A)
        elif how == "fitem":
            k = seed % 4

            def fn():
                if k == 0:
                    f.obj[d + 3] = 1.0
                elif k == 1:
                    f.obj[..., 0, :] = np.ones(d + 1)
                elif k == 2:
                    f.obj[0] = "abc"
                else:
                    f.obj[(0,) * 5] = 2.0

        elif how == "titem":
            if t is None:
                return False
            k = seed % 3

            def fn():
                if k == 0:
                    t.obj[t.amb.shape[0] + 2] = 1.0
                elif k == 1:
                    t.obj[...] = np.ones(t.amb.shape[-1] + 1)
                else:
                    t.obj[0] = "abc"

        elif how == "text":
            fn = lambda: setattr(f.obj, "axes", "abc" if seed % 2 else 3.5)
        elif how == "ragged":
            fn = lambda: setattr(f.obj, "axes", [[1.0, 2.0], [3.0]])
        elif how == "badrot":
            if d != 3:
                return False
            bad = [("Body", [0.1, 0.2], "XYZ"), ("Nope", [0.1, 0.2, 0.3], "XYZ"), ("Space", [0.1, 0.2, 0.3], "XXQ")][seed % 3]
            fn = lambda: f.obj.orient(*bad)
        elif how == "badshape_op":

            def fn():
                x = f.obj
                x += np.ones((d + 1, d + 1))

        elif how == "stray":
            # a vector of the wrong length has been attached to the frame
            if f.n is not None:
                return False
            try:
                extra = Vector(rs.rand(d + 1), frame=f.obj)
            except Exception:
                return False
            A = make_axes({"k": "orth", "s": seed}, d)
            fn = lambda: setattr(f.obj, "axes", A)
        elif how == "flag":
            # a bulk flag that contradicts the components
            from sigmaepsilon.math.linalg.tensor import Tensor2, Tensor2x3, Tensor4, Tensor4x3

            K, shape, b = [(Tensor2x3, (3, 3), True), (Tensor2x3, (2, 3, 3), False), (Tensor4x3, (3,) * 4, True), (Tensor4x3, (2,) + (3,) * 4, False),
                           (Tensor2, (d, d), True), (Tensor2, (2, d, d), False), (Tensor2, (2, d, d), None), (Tensor4, (d,) * 4, True),
                           (Tensor4, (2,) + (d,) * 4, None), (Tensor2x3, (3, 2), None), (Tensor4x3, (3, 3, 3), None), (Tensor2, (d, d + 1), None),
                           (Tensor2x3, (3,), None), (Tensor4, (d, d, d), None)][seed % 14]
            if f.n is not None or (K in (Tensor2x3, Tensor4x3) and d != 3):
                return False
            kw = {} if b is None else {"bulk": b}
            fn = lambda: K(np.ones(shape), frame=f.obj, **kw)
        elif how in ("tufunc", "tdiv", "tsum", "tpow"):
            # requests without a tensorial meaning
            if t is None:
                return False
            other = self.T(seed // 7)
            k = seed % 6
            if how == "tufunc":
                u = [np.sin, np.exp, np.sqrt, np.abs, np.add, np.multiply][k]
                if k < 4:
                    fn = (lambda: u(t.obj)) if seed % 2 else (lambda: u(t.obj, out=t.obj))
                else:
                    fn = lambda: u(t.obj, np.array(t.obj.array))
            elif how == "tdiv":
                bad = [other.obj, "a", None, np.array(t.obj.array), [2.0], f.obj][k]
                fn = (lambda: t.obj / bad) if seed % 4 < 2 else (lambda: t.obj * bad)
            elif how == "tsum":
                if k < 2 and (other.obj.__class__ is t.obj.__class__ and other.amb.shape == t.amb.shape):
                    return False
                bad = [other.obj, other.obj, 1.0, "a", None, np.array(t.obj.array)][k]
                fn = (lambda: t.obj + bad) if seed % 4 < 2 else (lambda: t.obj - bad)
            else:

                def fn():
                    x = t.obj
                    if k == 0:
                        x **= 2
                    elif k == 1:
                        x ** 2
                    elif k == 2:
                        x @= x
                    elif k == 3:
                        x @ x
                    elif k == 4:
                        np.negative(x, out=x)
                    else:
                        np.negative.outer(x) if seed % 2 else np.sum(x)

        elif how in ("tframe_dim", "tframe_bulk", "tframe_type", "tadd_shape", "torient", "tarray", "tmul", "tadd_any", "tfloat", "tadd_bulk"):
            if t is None:
                return False
            d = t.frame.dim
            if how == "tframe_dim":
                G = ReferenceFrame(np.eye(d + 1))
                fn = lambda: setattr(t.obj, "frame", G)
            elif how == "tframe_bulk":
                if t.bulk:
                    return False
                G = ReferenceFrame(np.array([np.eye(d)] * 3))
                fn = lambda: setattr(t.obj, "frame", G)
            elif how == "tframe_type":
                fn = lambda: setattr(t.obj, "frame", [1.0])
            elif how == "tadd_shape":
                if t.cls != "V":
                    return False
                other = Vector(np.ones(d + 1), frame=ReferenceFrame(dim=d + 1))

                def fn():
                    x = t.obj
                    x += other

            elif how == "torient":
                if d != 3:
                    return False
                fn = lambda: t.obj.orient("Body", [0.1], "XYZ")
            elif how == "tarray":
                shp = t.amb.shape
                bad = [np.ones(tuple(np.array(shp) + 1)), 2.0, np.ones((1,) + shp), np.ones(shp[:-1]) if len(shp) > 1 else [1.0],
                       np.ones(shp + (1,)), np.ones((1,) * len(shp)), np.ones((2,) + shp), "abc"]
                new = bad[seed % len(bad)]
                if np.shape(new) == shp and not isinstance(new, str):
                    return False
                fn = lambda: setattr(t.obj, "array", new)
            elif how == "tadd_any":
                # neither a number nor a tensor
                other = [np.ones(t.amb.shape), "1", None, [1.0] * d, t.frame.obj][seed % 5]

                def fn():
                    x = t.obj
                    if seed % 2:
                        x += other
                    else:
                        x -= other

            elif how == "tadd_bulk":
                # broadcasting a single tensor over a stack, or the reverse
                if t.cls != "Vb" or t.frame.n is not None:
                    return False
                other = Vector(np.ones(d), frame=t.frame.obj)

                def fn():
                    x = t.obj
                    if seed % 2:
                        x += other
                    else:
                        x -= other

            elif how == "tfloat":
                # the caller asked NumPy to raise on overflow and division by zero
                if np.max(np.abs(np.array(t.obj.array)), initial=0) < 2:
                    return False

                def fn():
                    x = t.obj
                    with np.errstate(all="raise"):
                        k = seed % 4
                        if k == 0:
                            x /= 0.0
                        elif k == 1:
                            x *= 1.7e308
                        elif k == 2:
                            x /= 5e-324
                        else:
                            x /= 0

            else:

                def fn():
                    x = t.obj
                    x *= "2"

        else:
            raise AssertionError(how)
        before = self.snapshot()
        try:
            fn()
        except Exception as e:
            self.ctx.fault("refused_" + how)
            self.ctx.ev("refused", how, type(e).__name__)
        else:
            self.bad("misuse-accepted", lambda: f"{how}: went through")
        self.unchanged(before, how)
        self.failed += 1
        del extra
        return "refused"


# ---- generators ------------------------------------------------------------
KINDS = ["skew", "skew", "orth", "rect", "scale", "eye", "int"]
HOW = ["C", "C", "F", "view", "T", "list", "int"]


def g_spec(rng, kinds=KINDS):
    return {"k": rng.choice(kinds), "s": rng.randrange(10**6)}


def g_angles(rng):
    a = [round(rng.uniform(-3.2, 3.2), 3) for _ in range(3)]
    if rng.random() < 0.3:
        a[rng.randrange(3)] = 0
    if rng.random() < 0.05:
        a = [x * 3e-6 for x in a]
    return a


def g_rot(rng):
    return rng.choice(["Body", "Space"]), g_angles(rng), rng.choice(["XYZ", "ZYX", "ZXZ", "YXZ", "XYX"])


def gen_setup(rng, heavy):
    dim = rng.choice([3, 3, 3, 2, 4])
    n = rng.choice([None, None, None, 2, 3]) if dim == 3 else None
    ops = []
    nf = rng.randint(1, 3)
    for _ in range(nf):
        kind = rng.choice(["R", "R", "R", "Q", "C"])
        ops.append(["frame", kind, dim, n if rng.random() < 0.6 else None, g_spec(rng), rng.choice(HOW)])
    if n:
        ops.append(["frame", "R", dim, n, g_spec(rng), rng.choice(HOW)])
    for _ in range(rng.randint(1, 5)):
        ops.append(g_tensor(rng, heavy, n))
    return ops, n


def g_tensor(rng, heavy, n=None):
    pool = ["V", "V", "V", "Vb", "T1", "T2g", "T2g", "T3", "T2", "T2", "T2b", "X", "Xb", "Xbb", "E", "Eb"]
    if heavy:
        pool += ["D", "Db", "Dbb"]
    return ["tensor", rng.randrange(9), rng.choice(pool), rng.randrange(10**6), rng.choice(HOW), n or rng.choice([1, 2, 3])]


def g_change(rng, fault=None, die=None):
    i = rng.randrange(9)
    r = rng.random()
    if r < 0.28:
        op = ["axes", i, g_spec(rng), rng.choice(HOW)]
        if rng.random() < 0.12:
            op[2]["near"] = True
    elif r < 0.45:
        o = rng.choice(["*", "/", "*", "/", "+", "-", "**"])
        v = rng.choice([2, 0.5, 3.0, -1, 1.5, 2, 0.5, 1 + 9e-6]) if o != "**" else rng.choice([2, 3])
        op = ["scalar", i, o, v]
    elif r < 0.60:
        op = ["matrix", i, rng.choice("@@+-*/"), g_spec(rng)]
    elif r < 0.78:
        op = ["orient", i, *g_rot(rng), rng.random() < 0.4]
    elif r < 0.85:
        op = ["ftranspose", i]
    elif r < 0.94:
        op = ["ufunc", i, rng.choice(["add", "multiply", "negative", "matmul"]), g_spec(rng)]
    elif r < 0.96:
        op = ["setitem", i, rng.randrange(3), rng.randrange(3), round(rng.uniform(-2, 2), 2)]
    elif r < 0.98:
        op = ["fchop", i, rng.choice([1e-12, 0.2, 0.5])]
    else:
        op = ["setrow", i, rng.randrange(3), rng.randrange(10**6), rng.choice(["row", "neg", "col", "all", "mask", "block"])]
    op.append(fault)
    op.append(die)
    return op


def g_tensor_op(rng, fault=None):
    r = rng.random()
    ti = rng.randrange(9)
    if r < 0.35:
        return ["move", ti, rng.randrange(9), rng.random() < 0.25, fault]
    if r < 0.5:
        return ["tadd", ti, rng.randrange(9), rng.choice("+-"), fault]
    if r < 0.62:
        return ["tscalar", ti, rng.choice("*/+-"), rng.choice([2, 0.5, 3.0, -1.5, 1 + 9e-6])]
    if r < 0.75:
        return ["torient", ti, *g_rot(rng), fault]
    if r < 0.80:
        return ["titem", ti, rng.randrange(10**6), rng.choice(["item", "row", "last", "chop"])]
    if r < 0.88:
        return ["tset", ti, rng.randrange(10**6), rng.choice(["C", "F", "view", "list"])]
    return ["ttranspose", ti]


def g_derive(rng, fault=None):
    r = rng.random()
    ti, ui = rng.randrange(9), rng.randrange(9)
    if r < 0.25:
        return ["copy", ti, rng.choice(["copy.copy", "copy.deepcopy", ".copy", ".deepcopy", ".copy(deep)"]), fault]
    if r < 0.55:
        return ["derive", ti, ui, rng.choice(["*", "/", "neg", "+", "-", "T", "dual", "orient_new"]), rng.choice([2, 0.5, 3.0, -1.5]), fault]
    if r < 0.8:
        return ["product", ti, ui, rng.choice(["dot", "dot", "cross"]), rng.randrange(50), rng.choice([None, None, rng.randrange(9)]), fault]
    return ["fcopy", ti, rng.choice(["copy", "deepcopy", "copy.copy", "copy.deepcopy", "ctor", "orient_new", "dual", "T", "*", "+", "/", "-", "neg", "@", "ff"]), rng.choice([2, 0.5, 1.5]), fault]


MISUSE = ["singular", "singular", "singular_mul", "singular_matmul", "shape", "shape", "irregular", "irregular", "fitem", "titem", "text", "ragged", "badrot", "badshape_op", "stray",
          "tframe_dim", "tframe_bulk", "tframe_type", "tadd_shape", "torient", "tarray", "tmul", "tadd_any", "tadd_bulk", "tfloat", "flag", "tufunc", "tdiv", "tsum", "tpow"]


def g_par(rng):
    if rng.random() < 0.5:
        return None
    return {"threads": rng.choice([2, 3, 4]), "spec": {"mode": rng.choice(["random", "random", "rr"]), "seed": rng.randrange(10**6), "p": rng.choice([0.1, 0.4, 0.8])}, "chunk": rng.choice([None, 1])}


def shrink_case(case):
    from .core import drop_each

    yield from drop_each(case["ops"], "ops", case)
    if case.get("par"):
        yield dict(case, par=None)
    for k, op in enumerate(case["ops"]):
        for pos in range(1, len(op)):
            if isinstance(op[pos], dict) and op[pos].get("k") not in ("eye", None):
                for kk in ("eye", "scale"):
                    if op[pos]["k"] != kk:
                        yield dict(case, ops=case["ops"][:k] + [op[:pos] + [dict(op[pos], k=kk)] + op[pos + 1 :]] + case["ops"][k + 1 :])
            if isinstance(op[pos], int) and not isinstance(op[pos], bool) and op[pos] > 0 and op[0] not in ("frame",):
                yield dict(case, ops=case["ops"][:k] + [op[:pos] + [0 if op[0] != "tensor" or pos < 5 else 1] + op[pos + 1 :]] + case["ops"][k + 1 :]) if not (op[0] == "tensor" and op[pos] == 1) else case
