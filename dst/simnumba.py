"""A simulated numba.

Installed before the package is imported.  ``njit``/``jit`` functions are not
compiled but interpreted from their own source, and the outermost ``prange``
loop of a ``parallel=True`` function is executed as numba would: the iteration
space is cut into contiguous chunks, every chunk goes to a worker thread, and
variables assigned inside the loop body are private to an iteration, scalar
``acc += x`` style updates are reductions, while arrays are shared.  The
workers run under ``sched.Sched``, i.e. *which worker runs when* is decided by
the simulator's seed.  Read-modify-write updates of shared array elements are
split into a load and a store, since compiled code is not atomic there.
"""
import ast
import copy
import functools
import inspect
import textwrap

import numpy as np

from . import sched as S

STATS = {"kernels": 0, "parallel": 0, "regions": 0, "fallback": []}


class Runtime:
    """What the simulator currently decides for parallel regions/faults."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.threads = 1  # simulated worker threads
        self.chunk = None  # None: balanced split, else chunk size
        self.sched_spec = None  # Decider spec
        self.opcodes = False
        self.fault_at = None  # fail the k-th kernel call (1-based)
        self.fault_exc = MemoryError
        self.kernel_calls = 0
        self.fired = 0
        self.regions = 0
        self.steps = 0
        self.sigs = []
        self.switch_log = []
        self.max_par = 0


RT = Runtime()


class SimFault(MemoryError):
    """An injected allocation/kernel failure."""


def kernel_event(name):
    """Called at the entry of every simulated kernel and patched numpy seam."""
    RT.kernel_calls += 1
    if RT.fault_at is not None and RT.kernel_calls == RT.fault_at:
        RT.fired += 1
        exc = RT.fault_exc
        raise exc(f"injected failure in call {RT.kernel_calls} ({name})")


class _Prange:
    def __call__(self, *args):
        return range(*args)


prange = _Prange()


def _load(arr, key):
    v = arr[key]
    return v.copy() if isinstance(v, np.ndarray) else v


def _chunks(n, threads, size):
    if n <= 0:
        return []
    if size:
        return [(a, min(a + size, n)) for a in range(0, n, size)]
    threads = max(1, min(threads, n))
    base, rem = divmod(n, threads)
    out, a = [], 0
    for t in range(threads):
        b = a + base + (1 if t < rem else 0)
        out.append((a, b))
        a = b
    return out


def _par_for(body, rng, reds):
    """Run `body(i, acc)` for i in rng; returns the list of private accumulators."""
    its = list(rng)
    if S.in_simulated_thread() or RT.threads <= 1 or len(its) <= 1 or RT.sched_spec is None:
        acc = dict(reds)
        for i in its:
            body(i, acc)
        return [acc]
    chunks = _chunks(len(its), RT.threads, RT.chunk)
    # chunks are dealt round-robin to the workers
    T = min(RT.threads, len(chunks))
    plan = [[c for k, c in enumerate(chunks) if k % T == t] for t in range(T)]
    accs = [dict(reds) for _ in range(T)]

    def worker(t):
        def go():
            for a, b in plan[t]:
                for k in range(a, b):
                    body(its[k], accs[t])

        return go

    RT.regions += 1
    spec = dict(RT.sched_spec)
    if spec.get("mode") == "explicit":
        per = spec.get("regions", {})
        spec["switches"] = per.get(str(RT.regions), [])
    else:
        spec["seed"] = spec.get("seed", 0) * 1000003 + RT.regions
    sc = S.Sched(S.Decider(spec), opcodes=RT.opcodes)
    tasks = sc.run([worker(t) for t in range(T)])
    RT.steps += sc.step
    RT.sigs.append(sc.sig)
    RT.switch_log.append((RT.regions, sc.switches))
    RT.max_par = max(RT.max_par, T)
    for t in tasks:
        if t.exc is not None:
            raise t.exc
    return accs


_OPS = {
    ast.Add: ("sum", 0),
    ast.Sub: ("sum", 0),
    ast.Mult: ("prod", 1),
    ast.Div: ("prod", 1),
}


def _combine(outer, accs, name, kind):
    for a in accs:
        v = a[name]
        if kind == "sum":
            outer = outer + v
        elif kind == "prod":
            outer = outer * v
        elif kind == "max":
            outer = max(outer, v)
        else:
            outer = min(outer, v)
    return outer


class _Unsupported(Exception):
    pass


class _SplitAug(ast.NodeTransformer):
    """x[k] op= e  ->  t = load(x, k); x[k] = t op e"""

    def __init__(self):
        self.n = 0

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if not isinstance(node.target, ast.Subscript):
            return node
        self.n += 1
        t = f"__t{self.n}"
        kname = f"__k{self.n}"
        aname = f"__a{self.n}"
        sl = node.target.slice
        arr = node.target.value
        key = _slice_expr(sl)
        out = [
            _assign(aname, arr),
            _assign(kname, key),
            _assign(
                t,
                ast.Call(
                    ast.Name("__sim_load__", ast.Load()),
                    [ast.Name(aname, ast.Load()), ast.Name(kname, ast.Load())],
                    [],
                ),
            ),
            ast.Assign(
                [
                    ast.Subscript(
                        ast.Name(aname, ast.Load()),
                        ast.Name(kname, ast.Load()),
                        ast.Store(),
                    )
                ],
                ast.BinOp(ast.Name(t, ast.Load()), node.op, node.value),
            ),
        ]
        return out


def _assign(name, value):
    return ast.Assign([ast.Name(name, ast.Store())], value)


def _slice_expr(sl):
    if isinstance(sl, ast.Slice):
        none = ast.Constant(None)
        return ast.Call(
            ast.Name("slice", ast.Load()),
            [sl.lower or none, sl.upper or none, sl.step or none],
            [],
        )
    if isinstance(sl, ast.Tuple):
        return ast.Tuple([_slice_expr(e) for e in sl.elts], ast.Load())
    return sl


class _ContinueToReturn(ast.NodeTransformer):
    def visit_For(self, node):
        return node

    visit_While = visit_For
    visit_FunctionDef = visit_For
    visit_Lambda = visit_For

    def visit_Continue(self, node):
        return ast.Return(ast.Constant(None))

    def visit_Break(self, node):
        raise _Unsupported("break in prange")


class _Parallelise:
    """Rewrites outermost prange loops of a function body."""

    def __init__(self, fdef, glob):
        self.glob = glob
        self.fdef = fdef
        self.k = 0
        self.defined = {a.arg for a in fdef.args.args + fdef.args.kwonlyargs}

    def is_prange(self, it):
        if not isinstance(it, ast.Call):
            return False
        f = it.func
        if isinstance(f, ast.Name):
            return self.glob.get(f.id) is prange or f.id == "prange"
        return isinstance(f, ast.Attribute) and f.attr == "prange"

    def block(self, stmts):
        out = []
        for s in stmts:
            if isinstance(s, ast.For) and self.is_prange(s.iter):
                out.extend(self.loop(s))
            else:
                for field in ("body", "orelse", "finalbody"):
                    sub = getattr(s, field, None)
                    if isinstance(sub, list) and sub and isinstance(sub[0], ast.stmt):
                        setattr(s, field, self.block(sub))
                out.append(s)
            self.defined |= _stored(s)
        return out

    def loop(self, node):
        if node.orelse or not isinstance(node.target, ast.Name):
            raise _Unsupported("prange form")
        self.k += 1
        body = [_normalise(b) for b in node.body]
        reds = {}
        for n in _walk_no_fn(body):
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                nm = n.target.id
                if nm in self.defined:
                    kind = _OPS.get(type(n.op))
                    if kind is None:
                        raise _Unsupported("reduction op")
                    if reds.get(nm, kind[0]) != kind[0]:
                        raise _Unsupported("mixed reduction")
                    reds[nm] = kind[0]
            elif isinstance(n, ast.Assign) and _minmax_red(n):
                nm, kind = _minmax_red(n)
                if nm in self.defined:
                    reds[nm] = kind
        # a name that is plainly (re)assigned inside the body is private
        plain = set()
        for n in _walk_no_fn(body):
            if isinstance(n, ast.Assign) and not _minmax_red(n):
                for t in n.targets:
                    plain |= _names(t)
            elif isinstance(n, (ast.For,)):
                plain |= _names(n.target)
        for nm in list(reds):
            if nm in plain:
                del reds[nm]
        stored = set()
        for b in body:
            stored |= _stored(b)
        stored -= set(reds)
        stored.discard(node.target.id)
        first = sorted(stored & self.defined)
        body = [_ContinueToReturn().visit(b) for b in body]
        body = [_RedNames(set(reds)).visit(b) for b in body]
        fname = f"__par_body_{self.k}"
        args = ast.arguments(
            posonlyargs=[],
            args=[ast.arg(node.target.id), ast.arg("__red__")]
            + [ast.arg(n) for n in first],
            kwonlyargs=[],
            kw_defaults=[],
            defaults=[ast.Name(n, ast.Load()) for n in first],
        )
        fd = ast.FunctionDef(
            name=fname, args=args, body=body, decorator_list=[], type_params=[]
        )
        init = ast.Dict(
            [ast.Constant(n) for n in reds],
            [
                ast.Constant(0)
                if k == "sum"
                else ast.Constant(1) if k == "prod" else ast.Name(n, ast.Load())
                for n, k in reds.items()
            ],
        )
        rng = ast.Call(ast.Name("range", ast.Load()), node.iter.args, [])
        call = _assign(
            "__accs__",
            ast.Call(
                ast.Name("__sim_par_for__", ast.Load()),
                [ast.Name(fname, ast.Load()), rng, init],
                [],
            ),
        )
        out = [fd, call]
        for n, k in reds.items():
            out.append(
                _assign(
                    n,
                    ast.Call(
                        ast.Name("__sim_combine__", ast.Load()),
                        [
                            ast.Name(n, ast.Load()),
                            ast.Name("__accs__", ast.Load()),
                            ast.Constant(n),
                            ast.Constant(k),
                        ],
                        [],
                    ),
                )
            )
        return out


class _RedNames(ast.NodeTransformer):
    def __init__(self, names):
        self.names = names

    def visit_Name(self, node):
        if node.id in self.names:
            return ast.Subscript(
                ast.Name("__red__", ast.Load()), ast.Constant(node.id), node.ctx
            )
        return node


class _Norm(ast.NodeTransformer):
    """acc = acc + e  ->  acc += e (numba infers a reduction from both)."""

    def visit_Assign(self, n):
        if (
            len(n.targets) == 1
            and isinstance(n.targets[0], ast.Name)
            and isinstance(n.value, ast.BinOp)
            and isinstance(n.value.left, ast.Name)
            and n.value.left.id == n.targets[0].id
            and type(n.value.op) in _OPS
        ):
            return ast.AugAssign(n.targets[0], n.value.op, n.value.right)
        return n


def _normalise(stmt):
    return _Norm().visit(stmt)


def _minmax_red(n):
    if (
        isinstance(n, ast.Assign)
        and len(n.targets) == 1
        and isinstance(n.targets[0], ast.Name)
        and isinstance(n.value, ast.Call)
        and isinstance(n.value.func, ast.Name)
        and n.value.func.id in ("max", "min")
        and any(
            isinstance(a, ast.Name) and a.id == n.targets[0].id for a in n.value.args
        )
    ):
        return n.targets[0].id, n.value.func.id
    return None


def _names(t):
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}


def _stored(s):
    return {
        x.id
        for x in ast.walk(s)
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)
    }


def _walk_no_fn(stmts):
    for s in stmts:
        for n in ast.walk(s):
            yield n


def _source_tree(fn):
    src = textwrap.dedent(inspect.getsource(fn))
    tree = ast.parse(src)
    fdef = tree.body[0]
    if not isinstance(fdef, ast.FunctionDef):
        raise _Unsupported("not a def")
    fdef.decorator_list = []
    return tree, fdef


def _compile(tree, fdef, fn, tag):
    ast.fix_missing_locations(tree)
    src = ast.unparse(tree)  # one statement per line: the yield points
    code = compile(src, f"<sim:{fn.__module__}.{fn.__name__}:{tag}>", "exec")
    glob = fn.__globals__
    glob["__sim_par_for__"] = _par_for
    glob["__sim_combine__"] = _combine
    glob["__sim_load__"] = _load
    loc = {}
    exec(code, glob, loc)
    out = loc[fdef.name]
    out.__defaults__ = fn.__defaults__
    out.__kwdefaults__ = fn.__kwdefaults__
    return out


def simulate(fn, parallel):
    """Returns the interpreted version of a jitted function."""
    if fn.__closure__:
        return fn
    try:
        tree, fdef = _source_tree(fn)
        if parallel:
            par = _Parallelise(fdef, fn.__globals__)
            fdef.body = par.block(fdef.body)
        fdef = _SplitAug().visit(fdef)
        tree.body = [fdef]
        return _compile(tree, fdef, fn, "par" if parallel else "seq")
    except Exception as e:  # keep the real body, executed sequentially
        STATS["fallback"].append(f"{fn.__name__}: {type(e).__name__}: {e}")
        return fn


KERNELS = {}


def _make(fn, opts):
    parallel = bool(opts.get("parallel", False))
    STATS["kernels"] += 1
    STATS["parallel"] += parallel
    body = simulate(fn, parallel)

    @functools.wraps(fn)
    def kernel(*args, **kwargs):
        kernel_event(fn.__name__)
        return body(*args, **kwargs)

    kernel.py_func = fn
    kernel.sim_parallel = parallel
    KERNELS[f"{fn.__module__}.{fn.__name__}"] = kernel
    return kernel


def njit(*args, **opts):
    if len(args) == 1 and not opts and inspect.isfunction(args[0]):
        return _make(args[0], {})
    return lambda fn: _make(fn, opts)


def jit(*args, **opts):
    return njit(*args, **opts)


class SimDict(dict):
    @classmethod
    def empty(cls, key_type=None, value_type=None):
        return cls()


class SimList(list):
    @classmethod
    def empty_list(cls, item_type=None):
        return cls()


def guvectorize(ftylist, signature, **opts):
    """Interpreted generalised ufunc (loop over leading dimensions)."""
    ins, outs = signature.replace(" ", "").split("->")
    core_in = [tuple(x for x in t.split(",") if x) for t in ins.strip("()").split("),(")]
    core_out = tuple(x for x in outs.strip("()").split(",") if x)

    def deco(fn):
        @functools.wraps(fn)
        def gu(*args):
            kernel_event(fn.__name__)
            arrs = [np.asarray(a, dtype=float) for a in args[: len(core_in)]]
            dims = {}
            lead = []
            for a, c in zip(arrs, core_in):
                lead.append(a.shape[: a.ndim - len(c)])
                for nm, sz in zip(c, a.shape[a.ndim - len(c) :]):
                    if dims.setdefault(nm, sz) != sz:
                        raise ValueError("core dimension mismatch")
            shape = np.broadcast_shapes(*lead)
            arrs = [
                np.broadcast_to(a, shape + a.shape[a.ndim - len(c) :])
                for a, c in zip(arrs, core_in)
            ]
            # memory that is not initialised, as with the real thing
            out = np.full(shape + tuple(dims[d] for d in core_out), np.nan)
            if len(args) > len(core_in):
                if args[len(core_in)].shape != out.shape:
                    raise ValueError("output array of the wrong shape")
                out = args[len(core_in)]
            cells = out if core_out else out.reshape(shape + (1,))
            for idx in np.ndindex(*shape):
                fn(*[a[idx] for a in arrs], cells[idx])
            return out if out.ndim else out[()]

        gu.py_func = fn
        return gu

    return deco


def install():
    import numba
    import numba.typed

    numba.guvectorize = guvectorize
    numba.njit = njit
    numba.jit = jit
    numba.prange = prange
    numba.typed.Dict = SimDict
    return numba
