"""Simulated life of a genetic algorithm: the optimiser runs for real, the
objective function, the random numbers and the caller belong to the simulator.

The machine records every objective call and drives the optimiser through a
generated history of calls (solve, recycle, evolve, reset, ...) with faults
injected into objective calls.  Oracles are evaluated after every call and,
because the objective callback itself is a seam, also inside running calls.
"""
import math
import random

import numpy as np

from .core import StopRun

RNG_BUDGET = 400_000


class ObjectiveFault(Exception):
    pass


class WeirdFault(Exception):
    def __str__(self):
        return ""


FAULTS = {
    "raise_custom": lambda: ObjectiveFault("injected"),
    "raise_value": lambda: ValueError("injected bad value"),
    "raise_zerodiv": lambda: ZeroDivisionError("injected"),
    "raise_memory": lambda: MemoryError("injected"),
    "raise_runtime": lambda: RuntimeError("injected runtime"),
    "raise_stop": lambda: StopIteration("injected stop"),
    "raise_noarg": lambda: WeirdFault(),
}
BAD_RETURNS = {
    "ret_text": lambda n: "not a number",
    "ret_list": lambda n: [1.0] * (2 + n % 2),
}


def objective_value(spec, x, n):
    """The value the simulated objective returns for its n-th call at x."""
    kind = spec["kind"]
    x = [float(v) for v in x]
    if kind == "quad":
        v = sum((a - c) ** 2 for a, c in zip(x, spec["c"]))
    elif kind == "rastrigin":
        v = sum(a * a - 10 * math.cos(2 * math.pi * a) + 10 for a in x)
    elif kind == "steps":  # plateaus: many exact ties
        v = float(sum(math.floor(a) for a in x))
    elif kind == "const":
        v = spec["v"]
    elif kind == "linear":
        v = sum(k * a for k, a in zip(spec["c"], x))
    elif kind == "hashy":  # rugged but deterministic
        h = random.Random(repr([round(a, 9) for a in x]) + str(spec["v"]))
        v = h.uniform(-100, 100)
    elif kind == "noisy":  # value depends on the call number as well
        h = random.Random(f"{n}/{spec['v']}")
        v = h.uniform(-100, 100)
    elif kind == "improving":  # every call beats all earlier ones
        v = float(n)
    elif kind == "worsening":
        v = -float(n)
    elif kind == "needle":
        d = sum((a - c) ** 2 for a, c in zip(x, spec["c"]))
        v = -1e6 if d < 0.5 else 1.0
    elif kind == "inf":
        d = sum((a - c) ** 2 for a, c in zip(x, spec["c"]))
        v = float("inf") if d < 0.05 else (float("-inf") if d > 50 else d)
    else:
        raise AssertionError(kind)
    return spec.get("sign", 1) * v


OBJ_KINDS = ["quad", "rastrigin", "steps", "const", "linear", "hashy", "noisy",
             "improving", "worsening", "needle", "inf"]


def gen_objective(rng, dim, stationary=False):
    kinds = [k for k in OBJ_KINDS if not stationary or k not in ("noisy", "improving", "worsening")]
    return {
        "kind": rng.choice(kinds),
        "c": [round(rng.uniform(-3, 3), 3) for _ in range(dim)],
        "v": rng.randrange(1000),
        "sign": rng.choice([1, 1, -1]),
        "ret": rng.choice(["float", "float", "np", "int?"]),
    }


class RngSeam:
    """Owns numpy's global legacy generator for one run."""

    NAMES = ["rand", "randint", "choice", "random", "uniform", "permutation",
             "shuffle", "random_sample", "randn", "normal", "binomial", "sample"]

    def __init__(self, ctx, mode, seed, kinds):
        self.ctx = ctx
        self.kinds = kinds
        self.mode = mode
        self.seed = seed
        self.calls = 0
        self.real = {}

    def __enter__(self):
        self.reseed(self.seed)
        for nm in self.NAMES:
            f = getattr(np.random, nm, None)
            if f is None:
                continue
            self.real[nm] = f
            setattr(np.random, nm, self._wrap(nm, f))
        return self

    def reseed(self, seed):
        np.random.seed(seed % (2**32))
        self.rs = np.random.RandomState((seed * 7 + 1) % (2**32))

    def __exit__(self, *a):
        for nm, f in self.real.items():
            setattr(np.random, nm, f)

    def _wrap(self, nm, f):
        def g(*args, **kw):
            self.calls += 1
            if self.calls > RNG_BUDGET:
                if "no-progress" in self.kinds:
                    self.ctx.fail("no-progress", f"more than {RNG_BUDGET} random draws in one run")
                raise StopRun("random draw budget")
            if self.mode == "plain":
                return f(*args, **kw)
            return self._extreme(nm, f, args, kw)

        return g

    def _extreme(self, nm, f, args, kw):
        """Legal but unlikely draws: the ends of the range, or repeats."""
        out = f(*args, **kw)
        if self.rs.rand() > 0.35:
            return out
        self.ctx.fault("rng_extreme")
        hi = self.rs.rand() > 0.5
        top, low_ = np.nextafter(1.0, 0.0), 2.0**-53
        if nm in ("rand", "random", "random_sample", "sample"):
            v = top if hi else low_
            return np.full(np.shape(out), v) if np.ndim(out) else v
        if nm == "randint":
            low = args[0]
            high = args[1] if len(args) > 1 else kw.get("high")
            if high is None:
                low, high = 0, low
            v = high - 1 if hi else low
            return np.full(np.shape(out), v, dtype=np.asarray(out).dtype) if np.ndim(out) else int(v)
        if nm == "choice" and kw.get("replace", True) is False and not isinstance(args[0], (int, np.integer)):
            a = np.asarray(args[0])
            k = int(args[1]) if len(args) > 1 else 1
            return a[-k:].copy() if hi else a[:k].copy()
        return out


DEFAULTS = dict(p_c=1, p_m=0.2, maxiter=200, miniter=0, elitism=1, maxage=5, minimize=False)


class Inst:
    """One optimiser instance and its reference model."""

    def __init__(self, m, k, spec):
        self.m, self.k, self.spec, self.ctx = m, k, spec, m.ctx
        self.n_calls = 0
        self.faults = {int(a): b for a, b in spec.get("faults", [])}
        self.nest = {int(a): b for a, b in spec.get("nest", [])}
        self.points = []  # every point ever asked, for reproducibility
        self.user_eval = None
        self.in_call = False
        self.last_exc = None

    # ---- the simulated objective ---------------------------------------
    def objective(self, x):
        self.n_calls += 1
        n = self.n_calls
        xs = [float(v) for v in x]
        self.points.append(tuple(xs))
        f = self.faults.pop(n, None)
        j = self.nest.pop(n, None)
        if j is not None:
            self.m.nested(self, j)
        if f is not None:
            self.ctx.fault("objective_" + f)
            self.ctx.ev("fault", self.k, n, f)
            self.last_exc = None
            if f in FAULTS:
                self.absorb()
                self.calls = []
                self.last_exc = FAULTS[f]()
                raise self.last_exc
            self.calls.append((xs, None))
            return BAD_RETURNS[f](n)
        v = objective_value(self.spec["obj"], xs, n)
        (self.calls if self.user_eval is None else self.user_eval).append((xs, v))
        r = self.spec["obj"].get("ret")
        if r == "np":
            return np.float64(v)
        if r == "int?" and math.isfinite(v) and v == int(v):
            return int(v)
        return v

    def objective_bulk(self, X):
        X = np.asarray(X, dtype=float)
        return np.array([self.objective(X[:, j]) for j in range(X.shape[1])], dtype=float)

    # ---- construction and model ----------------------------------------
    def build(self):
        from sigmaepsilon.math.function import Function
        from sigmaepsilon.math.optimize import BinaryGeneticAlgorithm

        s = self.spec
        self.ranges = s["ranges"]
        self.dim = len(self.ranges)
        self.L = s["length"]
        if s.get("symbolic"):
            names = ["x%d" % i for i in range(self.dim)]
            F = Function("+".join(f"{n}**2" for n in names), variables=names)
            F.f0 = self.objective_bulk
            fnc = F
        else:
            fnc = self.objective
        cls = BinaryGeneticAlgorithm
        stop = s.get("custom_stop")
        if stop:

            class CustomStop(BinaryGeneticAlgorithm):
                def stopping_criteria(self):
                    return self.champion.age > stop or self.state.n_fev > 25 * stop

            cls = CustomStop
        self.params = dict(DEFAULTS)
        self.params.update(s["params"])
        self.ga = cls(fnc, self.ranges, length=self.L, nPop=s["nPop"], **s["params"])
        self.nPop = s["nPop"]
        while self.nPop % 4:
            self.nPop += 1
        self.model_reset()
        return self

    @property
    def minimize(self):
        return self.params["minimize"]

    def model_reset(self):
        self.calls = []
        self.pending = []  # evaluated generations the champion has not met yet
        self.m_iter = self.m_age = self.m_fev = 0
        self.m_best = self.m_best_x = None
        self.m_gen_best = None
        self.m_stage = None
        self.m_success = True
        self.m_msg = ""
        self.bred = False  # the population at hand has been met by the champion
        self.parents_due = False  # a population set by the user, yet to be evaluated

    def absorb(self):
        n = self.nPop
        while len(self.calls) >= n:
            gen, self.calls = self.calls[:n], self.calls[n:]
            if any(v is None for _, v in gen):
                continue  # a garbage return value: this evaluation failed
            self.m_fev += n
            if self.parents_due:
                self.parents_due = False  # evaluated to select from, not a generation
                continue
            self.pending.append(gen)
            self.bred = False

    def meet(self):
        """The champion meets the next evaluated generation."""
        gen = self.pending.pop(0)
        vals = [v for _, v in gen]
        b = min(vals) if self.minimize else max(vals)
        self.m_gen_best = b
        if self.m_best is None or (b < self.m_best if self.minimize else b > self.m_best):
            self.m_best, self.m_age = b, 0
            self.m_best_x = [x for x, v in gen if v == b]
        self.m_age += 1
        self.bred = True

    def stop_model(self):
        stop = self.spec.get("custom_stop")
        if stop:
            return self.m_age > stop or self.m_fev_at > 25 * stop
        return self.m_age > self.params["maxage"]

    # ---- oracles -------------------------------------------------------
    def chk(self, cond, kind, detail=""):
        if not cond and kind in self.m.kinds:
            self.ctx.fail(kind, detail() if callable(detail) else detail)

    def check_champion(self, where):
        ga = self.ga
        ch = ga.champion
        if self.m_best is None:
            self.chk(ch is None, "champion-without-evaluation", f"{where}: {ch}")
            return
        self.chk(ch is not None, "champion-missing", where)
        if ch is None:
            return
        self.chk(
            float(ch.fitness) == self.m_best, "champion-not-best",
            lambda: f"{where}: champion fitness {ch.fitness!r}, best evaluated {self.m_best!r} (minimize={self.minimize})",
        )
        px = [float(v) for v in ch.phenotype]
        self.chk(
            px in self.m_best_x, "champion-wrong-point",
            lambda: f"{where}: champion at {px}, the best value was obtained at {self.m_best_x[:3]}",
        )
        dec = decode_ref(ch.genotype, self.ranges, self.L)
        self.chk(
            np.allclose(dec, px, rtol=1e-9, atol=1e-9), "champion-genotype-mismatch",
            lambda: f"{where}: genotype decodes to {dec}, phenotype is {px}",
        )
        st = ga.state
        self.chk(
            st.x is not None and [float(v) for v in st.x] == px and st.fun == ch.fitness,
            "state-out-of-step", lambda: f"{where}: state x={st.x} fun={st.fun}, champion {px} {ch.fitness}",
        )
        self.chk(ch.age == self.m_age, "champion-age", lambda: f"{where}: age {ch.age}, model {self.m_age}")

    def check_books(self, where):
        st = self.ga.state
        self.chk(st.n_iter == self.m_iter, "iteration-count", lambda: f"{where}: n_iter={st.n_iter}, generations run by solve={self.m_iter}")
        self.chk(st.n_fev == self.m_fev, "evaluation-count", lambda: f"{where}: n_fev={st.n_fev}, evaluations performed={self.m_fev}")
        self.chk(st.stage == self.m_stage, "status", lambda: f"{where}: stage={st.stage}, expected {self.m_stage}")
        self.chk(st.success == self.m_success, "success-flag", lambda: f"{where}: success={st.success}, expected {self.m_success}")
        self.chk(st.message == self.m_msg, "message", lambda: f"{where}: message={st.message!r}, expected {self.m_msg!r}")
        sp = st.to_scipy()
        self.chk(
            sp.nit == st.n_iter and sp.nfev == st.n_fev and sp.status == st.stage
            and sp.success == st.success and sp.fun == st.fun and sp.message == st.message
            and ((sp.x is None) == (st.x is None)) and (st.x is None or list(sp.x) == list(st.x)),
            "scipy-view", lambda: f"{where}: {sp} vs {st}",
        )

    def population(self):
        return np.array(self.ga.genotypes, dtype=float)

    def check_population(self, where):
        G = self.population()
        self.chk(G.shape == (self.nPop, self.dim * self.L), "population-shape", lambda: f"{where}: {G.shape}")
        self.chk(bool(np.isin(G, (0.0, 1.0)).all()), "population-genes", lambda: f"{where}: genes {np.unique(G)[:6]}")

    def check_phenotypes(self, where):
        G = self.population()
        P = np.asarray(self.ga.phenotypes, dtype=float)
        R = np.array(self.ranges, dtype=float)
        span = np.abs(R[:, 1] - R[:, 0])
        lo, hi = R.min(axis=1), R.max(axis=1)
        tol = 1e-9 * (1 + span + np.abs(R).max(axis=1))
        self.chk(P.shape == (self.nPop, self.dim), "population-shape", lambda: f"{where}: phenotypes {P.shape}")
        self.chk(bool(((P >= lo - tol) & (P <= hi + tol)).all()), "out-of-range", lambda: f"{where}: {P.min(axis=0)} {P.max(axis=0)} ranges {self.ranges}")
        D = np.array([decode_ref(g, self.ranges, self.L) for g in G])
        self.chk(bool(np.allclose(P, D, rtol=1e-9, atol=1e-9)), "decode-mismatch", lambda: f"{where}: {P[0]} vs {D[0]}")


def decode_ref(genotype, ranges, L):
    out = []
    for d, (lo, hi) in enumerate(ranges):
        bits = [int(round(float(b))) for b in genotype[d * L : (d + 1) * L]]
        k = sum(b << i for i, b in enumerate(bits))
        out.append(lo + (hi - lo) * k / (2**L - 1))
    return out


class Machine:
    def __init__(self, case, ctx, kinds):
        self.case, self.ctx, self.kinds = case, ctx, kinds
        self.insts = []
        self.midway = "recovery" in kinds

    def nested(self, inst, j):
        """An objective function that itself uses another optimiser."""
        other = self.insts[j] if j < len(self.insts) else None
        if other is None or other is inst or other.in_call or inst.user_eval is not None:
            return
        self.ctx.fault("reentrant_objective")
        self.do(other, ["evolve", 1])

    def run(self):
        c = self.case
        with RngSeam(self.ctx, c.get("rng", "plain"), c["seed"], self.kinds) as seam:
            self.seam = seam
            for k, spec in enumerate(c["insts"]):
                inst = Inst(self, k, spec)
                try:
                    inst.build()
                except Exception as e:
                    inst.chk(False, "unexpected-error", f"construction: {type(e).__name__}: {e}")
                    return
                self.ctx.ev("built", k)
                self.insts.append(inst)
            for op in c["ops"]:
                self.do(self.insts[op[0] % len(self.insts)], op[1:])
                self.ctx.sig.append(op[1])
            self.ctx.steps += sum(i.n_calls for i in self.insts)

    def do(self, inst, op):
        inst.in_call = True
        try:
            getattr(self, "op_" + op[0])(inst, *op[1:])
        finally:
            inst.in_call = False

    # ---- calls ---------------------------------------------------------
    def _call(self, inst, where, fn):
        """Run a call that may legitimately fail only through an injected fault."""
        inst.last_exc = None
        planned = set(inst.faults)
        try:
            out = fn()
        except Exception as e:
            fired = planned - set(inst.faults)
            if not fired:
                inst.chk(False, "unexpected-error", lambda: f"{where}: {type(e).__name__}: {e} (cause {e.__cause__!r})")
                return False, e
            self.ctx.probe("call_failed_by_fault")
            return False, e
        fired = planned - set(inst.faults)
        inst.chk(not fired, "fault-swallowed", lambda: f"{where}: objective failed in call(s) {sorted(fired)} but no error was raised")
        return True, out

    def op_evolve(self, inst, k=1):
        where = f"evolve({k})#{inst.k}"
        ok, out = self._call(inst, where, lambda: inst.ga.evolve(k))
        inst.absorb()
        n = len(inst.pending)
        if ok:
            inst.chk(n == k, "generation-count", lambda: f"{where}: {n} generations evaluated")
            inst.chk(out is not None and len(out) == inst.nPop, "evolve-result", where)
        else:
            inst.chk(n < k, "generation-count", lambda: f"{where}: failed, yet {n} generations evaluated")
            self.check_error(inst, where, out)
        for _ in range(len(inst.pending)):
            inst.meet()
        if not ok and not inst.parents_due:
            inst.bred = False  # the failed generation is still due
        self.ctx.ev("evolve", inst.k, k, ok, n, inst.m_best, inst.n_calls)
        self.after(inst, where)

    def op_solve(self, inst, recycle, params):
        where = f"solve(recycle={recycle}, {params})#{inst.k}"
        kw = dict(params)
        if recycle:
            kw.pop("minimize", None)
            ok, out = self._call(inst, where, lambda: inst.ga.solve(recycle=True, **kw))
        else:
            inst.model_reset()
            ok, out = self._call(inst, where, lambda: inst.ga.solve(**kw))
        inst.params.update(kw)
        inst.absorb()
        p = inst.params
        gens = len(inst.pending)
        inst.m_fev_total = inst.m_fev
        fev = inst.m_fev - gens * inst.nPop
        stopped = False
        for g in range(gens):
            inst.chk(not stopped, "ran-on", lambda: f"{where}: stopping rule satisfied after {inst.m_iter} iterations, but {gens - g} more generation(s) were run")
            inst.meet()
            fev += inst.nPop
            inst.m_fev_at = fev
            inst.m_iter += 1
            hit_max = inst.m_iter >= p["maxiter"]
            stopped = (inst.stop_model() or hit_max) and inst.m_iter >= p["miniter"]
        if ok:
            inst.chk(gens >= 1, "generation-count", f"{where}: no generation evaluated")
            inst.chk(stopped, "stopped-early", lambda: f"{where}: returned after {inst.m_iter} iterations, age {inst.m_age}, params {p}")
            inst.m_stage = 1 if inst.m_iter >= p["maxiter"] else 2
            inst.m_success, inst.m_msg = True, ""
            inst.chk(out is inst.ga.champion, "solve-result", f"{where}: did not return the champion")
            self.ctx.probe("converged" if inst.m_stage == 2 else "maxiter_reached")
        else:
            inst.chk(not stopped, "ran-on", lambda: f"{where}: stopping rule satisfied, but evaluation went on and failed")
            inst.m_stage, inst.m_success, inst.m_msg = -1, False, str(out)
            if not inst.parents_due:
                inst.bred = False
            self.check_error(inst, where, out)
        self.ctx.ev("solve", inst.k, recycle, ok, gens, inst.m_best, inst.n_calls)
        self.after(inst, where)
        return ok

    def check_error(self, inst, where, e):
        inst.chk(isinstance(e, RuntimeError), "error-type", lambda: f"{where}: {type(e).__name__}: {e}")
        inst.chk(
            inst.last_exc is None or e.__cause__ is inst.last_exc, "error-cause",
            lambda: f"{where}: cause {e.__cause__!r}, objective raised {inst.last_exc!r}",
        )
        inst.calls = []

    def op_seedpop(self, inst, seed):
        """The user replaces the population (a warm start)."""
        e = inst.params["elitism"]
        if inst.pending:
            return  # evaluated by a look at it, but not met by the champion yet
        if inst.bred and (not self.midway or not isinstance(e, int) or inst.spec["obj"]["kind"] in ("noisy", "improving", "worsening")):
            return
        G = np.random.RandomState(seed).randint(2, size=(inst.nPop, inst.dim * inst.L))
        inst.ga.genotypes = G
        inst.parents_due = inst.bred
        self.ctx.probe("population_set_midway" if inst.bred else "population_set")
        where = f"genotypes#{inst.k}"
        inst.chk(bool((inst.population() == G).all()), "population-shape", where)
        inst.check_phenotypes(where)
        self.after(inst, where)

    def op_reset(self, inst):
        where = f"reset#{inst.k}"
        ok, _ = self._call(inst, where, lambda: inst.ga.reset())
        inst.model_reset()
        self.ctx.ev("reset", inst.k)
        self.after(inst, where)

    def op_set(self, inst, params):
        where = f"set({params})#{inst.k}"
        kw = {k: v for k, v in params.items() if k != "minimize"}
        ok, _ = self._call(inst, where, lambda: inst.ga.set_solution_params(**kw))
        inst.params.update(kw)
        self.after(inst, where)

    def op_badset(self, inst, params):
        """A refused parameter set raises and changes nothing."""
        where = f"set({params})#{inst.k}"
        self.ctx.fault("invalid_parameters")
        try:
            inst.ga.set_solution_params(**params)
        except ValueError:
            pass
        except Exception as e:
            inst.chk(False, "unexpected-error", f"{where}: {type(e).__name__}: {e}")
        else:
            inst.chk(False, "invalid-accepted", f"{where}: accepted")
            raise StopRun("invalid parameters accepted")
        g = inst.ga
        for nm in ("p_c", "p_m", "maxiter", "miniter", "elitism", "maxage"):
            v = getattr(g, nm)
            inst.chk(v == inst.params[nm], "rejected-params-applied", f"{where}: refused, yet {nm} is now {v!r} (was {inst.params[nm]!r})")
        self.after(inst, where)

    def op_peek(self, inst):
        """Reading results must not change anything."""
        where = f"peek#{inst.k}"

        def fn():
            g = inst.ga
            b = g.best_candidate()
            x = g.best_phenotype()
            return b, x, np.array(g.fitness, dtype=float), np.array(g.phenotypes, dtype=float)

        ok, out = self._call(inst, where, fn)
        if not ok:
            self.check_error(inst, where, out)
        inst.absorb()
        if ok:
            b, x, fit, P = out
            best = fit.min() if inst.minimize else fit.max()
            inst.chk(float(b.fitness) == best and list(b.phenotype) == list(P[b.index]) and fit[b.index] == best and list(x) == list(b.phenotype), "best-candidate", lambda: f"{where}: {b} vs {best}")
            c = inst.ga.champion
            if c is not None:
                x, y = float(b.fitness), float(c.fitness)
                inst.chk([bool(b > c), bool(b < c), bool(b >= c), bool(b <= c)] == [x > y, x < y, x >= y, x <= y], "best-candidate", lambda: f"{where}: comparison of {b} with {c}")
                same = list(b.genotype) == list(c.genotype)
                inst.chk(bool(b == c) == same and (not same or hash(b) == hash(c)), "best-candidate", lambda: f"{where}: equality of {b} and {c}")
        self.ctx.ev("peek", inst.k, ok)
        self.after(inst, where)

    def op_evaluate(self, inst, pts):
        where = f"evaluate#{inst.k}"
        X = np.array(pts, dtype=float)[:, : inst.dim]
        if inst.faults and min(inst.faults) <= inst.n_calls + len(X):
            return
        inst.user_eval = []
        nest, inst.nest = inst.nest, {}
        ok, out = self._call(inst, where, lambda: inst.ga.evaluate(X))
        vals = [v for _, v in inst.user_eval]
        inst.user_eval, inst.nest = None, nest
        inst.m_fev += len(X)
        if ok:
            inst.chk(list(np.asarray(out, dtype=float)) == vals, "evaluate-result", where)
        self.after(inst, where)

    def op_heal(self, inst):
        """Faults stop: a recycled solve must finish, within bounded work."""
        inst.faults.clear()
        p = inst.params
        n0 = inst.m_iter
        self.ctx.probe("heal")
        ok = self.op_solve(inst, True, {})
        limit = max(p["maxiter"], n0 + 1)
        inst.chk(inst.ga.state.n_iter <= limit, "no-progress", f"recycled solve needed {inst.ga.state.n_iter} > {limit} iterations")
        inst.chk(ok and inst.ga.state.success is True, "recovery", "a recycled solve after the faults stopped did not succeed")

    def op_fresh(self, inst, seed):
        """A fresh solve after anything equals a fresh solve of a new object."""
        inst.faults.clear()
        inst.nest.clear()
        if inst.spec["obj"]["kind"] in ("noisy", "improving", "worsening"):
            return
        self.seam.reseed(seed)
        a0 = len(inst.points)
        self.op_solve(inst, False, {})
        pa, ca, sa = inst.points[a0:], inst.ga.champion, inst.ga.state
        twin = Inst(self, inst.k + 100, dict(inst.spec, faults=[], nest=[], params=dict(inst.params)))
        twin.build()
        self.seam.reseed(seed)
        b0 = len(twin.points)
        self.op_solve(twin, False, {})
        pb, cb, sb = twin.points[b0:], twin.ga.champion, twin.ga.state
        inst.chk(
            pa == pb and list(ca.phenotype) == list(cb.phenotype) and ca.fitness == cb.fitness
            and sa.model_dump() == sb.model_dump(),
            "history-leaks-into-fresh-solve",
            lambda: f"used object: {sa}, new object: {sb}, first differing evaluation {next((i for i, (u, v) in enumerate(zip(pa, pb)) if u != v), None)}",
        )

    def after(self, inst, where):
        if inst.in_call and any(o.in_call for o in self.insts if o is not inst):
            self.ctx.probe("nested_call")
        inst.check_champion(where)
        inst.check_books(where)
        inst.check_population(where)


# ---- generators --------------------------------------------------------
def gen_params(rng, nPop, faulty=False):
    maxiter = rng.choice([1, 2, 3, 5, 8, 12, 20, 40])
    p = {
        "maxiter": maxiter,
        "miniter": rng.choice([0, 0, 0, 1, 2, rng.randint(0, maxiter)]) if maxiter > 2 else 0,
        "maxage": rng.choice([0, 1, 2, 3, 5, 50]),
        "p_c": rng.choice([1, 1, 1, 0.7, 0.0]),
        "p_m": rng.choice([0.2, 0.2, 0.05, 0.0, 0.5, 1.0]),
        "elitism": gen_elitism(rng, nPop),
    }
    p["miniter"] = min(p["miniter"], maxiter)
    return {k: v for k, v in p.items() if rng.random() < 0.8 or k == "maxiter" or (k == "miniter" and v <= maxiter)}


def gen_elitism(rng, nPop):
    n = nPop
    while n % 4:
        n += 1
    return rng.choice([1, 1, 1, None, 2, 0.1, 0.25, 0.5, rng.randint(1, n - 1), round(rng.uniform(0.01, 0.99), 2)])


def gen_inst(rng, faults=0, stationary=False, sym=True):
    dim = rng.choice([1, 2, 2, 3])
    length = rng.choice([3, 3, 4, 5, 8]) if dim == 1 else rng.choice([2, 3, 4, 6])
    nPop = rng.choice([4, 5, 6, 8, 8, 10, 12, 16, 20])
    spec = {
        "obj": gen_objective(rng, dim, stationary),
        "ranges": [gen_range(rng) for _ in range(dim)],
        "length": length,
        "nPop": nPop,
        "params": dict(gen_params(rng, nPop), minimize=rng.random() < 0.5),
        "symbolic": sym and rng.random() < 0.25,
    }
    if "miniter" in spec["params"] and spec["params"]["miniter"] > spec["params"]["maxiter"]:
        spec["params"]["miniter"] = 0
    if rng.random() < 0.15:
        spec["custom_stop"] = rng.choice([1, 3, 10])
    if faults:
        gen = nPop
        kinds = list(FAULTS) + ([] if spec["symbolic"] else list(BAD_RETURNS))
        pts = set()
        for _ in range(faults):
            mode = rng.random()
            if mode < 0.5:
                pts.add(rng.randint(1, 6 * gen))
            elif mode < 0.75 and pts:
                pts.add(max(pts) + rng.randint(1, gen + 1))  # hits the retry
            else:
                g = rng.randint(0, 6)
                pts.add(g * gen + rng.choice([1, gen, 2]))
        spec["faults"] = [[n, rng.choice(kinds)] for n in sorted(pts)]
    return spec


def gen_range(rng):
    k = rng.random()
    if k < 0.5:
        return [-5, 5]
    if k < 0.7:
        return [0, 1]
    if k < 0.85:
        a = round(rng.uniform(-10, 10), 2)
        return [a, round(a + rng.uniform(0.1, 20), 2)]
    return rng.choice([[0.1, 0.3], [-1e6, 1e6], [3, 4], [-1, 0]])


def gen_ops(rng, n, n_inst, heal=False, faulty=False):
    ops = []
    for _ in range(n):
        k = rng.randrange(n_inst)
        r = rng.random()
        if r < 0.30:
            ops.append([k, "evolve", rng.choice([1, 1, 1, 2, 3])])
        elif r < 0.55:
            ops.append([k, "solve", rng.random() < 0.6, {}])
        elif r < 0.65:
            ops.append([k, "solve", rng.random() < 0.5, gen_small_params(rng)])
        elif r < 0.72:
            ops.append([k, "reset"])
        elif r < 0.77:
            ops.append([k, "set", gen_small_params(rng)])
        elif r < 0.81:
            ops.append([k, "badset", gen_bad_params(rng)])
        elif r < 0.92:
            ops.append([k, "peek"])
        elif r < 0.95:
            ops.append([k, "seedpop", rng.randrange(10**6)])
        else:
            ops.append([k, "evaluate", [[round(rng.uniform(-2, 2), 2) for _ in range(3)] for _ in range(rng.randint(1, 4))]])
        if heal and rng.random() < 0.15:
            ops.append([k, "heal"])
    return ops


def gen_small_params(rng):
    p = {}
    if rng.random() < 0.6:
        p["maxiter"] = rng.choice([1, 2, 4, 9, 25])
        p["miniter"] = rng.choice([0, 1, p["maxiter"]])
    if rng.random() < 0.5:
        p["maxage"] = rng.choice([0, 1, 3, 7])
    if rng.random() < 0.3:
        p["p_m"] = rng.choice([0.0, 0.1, 0.6])
    if rng.random() < 0.2:
        p["elitism"] = rng.choice([1, None, 2, 0.5])
    if rng.random() < 0.12:
        p["minimize"] = rng.random() < 0.5
    return p


def gen_bad_params(rng):
    """Hyper-parameters that have to be refused."""
    p = rng.choice([
        {"elitism": 0}, {"elitism": -1}, {"elitism": 0.0}, {"elitism": 1.5}, {"elitism": 10**6},
        {"miniter": 10**6}, {"maxiter": -1}, {"maxiter": 2, "miniter": 3},
    ])
    extra = rng.choice([{}, {}, {"p_m": 0.9}, {"maxage": 1}, {"p_c": 0.1, "maxage": 0}])
    return {**extra, **p}


def shrink_case(case):
    from .core import drop_each

    if len(case["ops"]) > 1:
        yield from drop_each(case["ops"], "ops", case)
    if len(case["insts"]) > 1:
        c = dict(case, insts=case["insts"][:1], ops=[op for op in case["ops"]])
        yield c
    for k, sp in enumerate(case["insts"]):
        for key, vals in (("nPop", [4, 8]), ("length", [3]), ("symbolic", [False]),
                          ("custom_stop", [None]), ("faults", [[]]), ("nest", [[]])):
            for v in vals:
                if sp.get(key) not in (v, None, False, []) and (not isinstance(v, int) or isinstance(v, bool) or sp[key] > v):
                    yield dict(case, insts=case["insts"][:k] + [dict(sp, **{key: v})] + case["insts"][k + 1 :])
        fl = sp.get("faults") or []
        for a in range(len(fl)):
            yield dict(case, insts=case["insts"][:k] + [dict(sp, faults=fl[:a] + fl[a + 1 :])] + case["insts"][k + 1 :])
        for pk in list(sp["params"]):
            np_ = {x: y for x, y in sp["params"].items() if x != pk}
            if pk == "maxiter":
                continue
            yield dict(case, insts=case["insts"][:k] + [dict(sp, params=np_)] + case["insts"][k + 1 :])
    if case.get("rng") != "plain":
        yield dict(case, rng="plain")
    for i, op in enumerate(case["ops"]):
        if op[1] == "evolve" and op[2] > 1:
            yield dict(case, ops=case["ops"][:i] + [[op[0], "evolve", 1]] + case["ops"][i + 1 :])
        if op[1] == "solve" and op[3]:
            yield dict(case, ops=case["ops"][:i] + [[op[0], "solve", op[2], {}]] + case["ops"][i + 1 :])
