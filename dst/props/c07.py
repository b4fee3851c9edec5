"""C07: every generation is a valid population; elites survive; reproducible."""
from collections import Counter

import numpy as np

from .. import ga_machine as G
from ..core import drop_each
from ._ga import GAProp, gen_case

PM = [0.0, 0.0, 0.2, 0.5, 1.0]


def rows(A):
    return [tuple(int(v) for v in r) for r in np.asarray(A, dtype=float)]


class Gen:
    """One instance driven generation by generation."""

    def __init__(self, m, inst):
        self.m, self.inst, self.ctx, self.ga = m, inst, m.ctx, inst.ga
        self.start = rows(inst.ga.genotypes)  # nothing evaluated yet
        self.prev = None  # (rows, fitness) of the last evaluated generation
        self.due = None  # population whose evaluation failed
        self.trace = []
        self.parents_due = False  # a population set by the user, not evaluated yet

    def seedpop(self, seed):
        i, ga = self.inst, self.ga
        Gn = np.random.RandomState(seed).randint(2, size=(i.nPop, i.dim * i.L))
        ga.genotypes = Gn
        i.check_phenotypes("population set by the user")
        if self.due is not None:
            self.due = rows(Gn)
            self.prev = None  # not bred from it
        elif self.prev is not None:
            fit = [G.objective_value(i.spec["obj"], [float(v) for v in x], 0) for x in ga.phenotypes]
            self.prev = (rows(Gn), fit)
            self.parents_due = True
        else:
            self.start = rows(Gn)
        self.ctx.probe("population_set")

    def step(self):
        i, ga, ctx = self.inst, self.ga, self.ctx
        p = i.params
        where = f"generation {len(self.trace)}"
        planned = set(i.faults)
        n0 = i.n_calls
        try:
            out = ga.evolve(1)
        except Exception as e:
            if planned == set(i.faults):
                ctx.fail("unexpected-error", f"{where}: {type(e).__name__}: {e}")
            i.check_population(where)
            if self.parents_due and min(planned - set(i.faults)) - n0 <= i.nPop:
                ctx.check(rows(ga.genotypes) == self.prev[0], "generation-lost", f"{where}: the population set by the user was replaced before being evaluated")
                self.trace.append(("failed",))
                return
            self.parents_due = False
            if self.due is not None and rows(ga.genotypes) != self.due:
                ctx.fail("generation-lost", f"{where}: the generation whose evaluation failed was replaced before being evaluated")
            if self.start is not None:
                ctx.check(rows(ga.genotypes) == self.start, "generation-lost", f"{where}: the first generation is not the initial population")
                self.start = None
            if self.due is None:
                self.check_heritage(rows(ga.genotypes), where)
            self.due = rows(ga.genotypes)
            ctx.probe("generation_failed")
            self.trace.append(("failed",))
            return
        i.check_population(where)
        i.check_phenotypes(where)
        R = rows(ga.genotypes)
        self.parents_due = False
        if self.start is not None:
            ctx.check(R == self.start, "generation-lost", f"{where}: the first generation is not the initial population")
            self.start = None
        ctx.check(rows(out) == R, "evolve-result", where)
        fit = [float(v) for v in ga.fitness]
        ctx.check(len(fit) == i.nPop, "population-shape", where)
        if self.due is not None:
            ctx.check(R == self.due, "generation-lost", f"{where}: the generation whose evaluation failed was replaced before being evaluated")
            ctx.probe("generation_retried")
        else:
            self.check_heritage(R, where)
        self.due = None
        for r, f, x in zip(R, fit, np.asarray(ga.phenotypes, dtype=float)):
            want = G.objective_value(i.spec["obj"], [float(v) for v in x], 0)
            ctx.check(f == want, "fitness-misaligned", lambda: f"{where}: fitness {f} reported for {list(x)}, whose value is {want}")
        if self.prev is not None and self.bred_elites >= 1:
            b0, b1 = (min, max)[not i.minimize](self.prev[1]), (min, max)[not i.minimize](fit)
            ctx.check(b1 <= b0 if i.minimize else b1 >= b0, "best-lost", lambda: f"{where}: best of the population went from {b0} to {b1}")
        self.prev = (R, fit)
        self.trace.append((tuple(R), tuple(fit)))
        ctx.probe("generation")

    def n_elite(self):
        e = self.inst.params["elitism"]
        if e is None:
            return 0
        return int(self.inst.nPop * e) if e < 1 else int(e)

    def check_heritage(self, R, where):
        """R was bred from the previous evaluated generation."""
        if self.prev is None:
            return
        i, ctx, p = self.inst, self.ctx, self.inst.params
        R0, f0 = self.prev
        sgn = 1 if i.minimize else -1
        key = [sgn * v for v in f0]  # smaller is better
        order = sorted(range(len(R0)), key=lambda k: key[k])
        n = self.bred_elites = self.n_elite()
        c1 = Counter(R)
        if n:
            ctx.probe("elites_checked")
            bound = key[order[n - 1]]
            sure = Counter(R0[k] for k in range(len(R0)) if key[k] < bound)
            for r, c in sure.items():
                ctx.check(c1[r] >= c, "elite-lost", lambda: f"{where}: elite {r} (x{c}) is in the next generation {c1[r]} time(s)")
            pool = Counter(R0[k] for k in range(len(R0)) if key[k] <= bound)
            have = sum(min(c1[r], c) for r, c in pool.items())
            ctx.check(have >= n, "elite-lost", lambda: f"{where}: only {have} of {n} elites are in the next generation")
        if p["p_m"] == 0.0 or p["p_c"] == 0.0:
            for loc in range(len(R0[0])):
                vals = {r[loc] for r in R0}
                if len(vals) == 1:
                    ctx.check({r[loc] for r in R} == vals, "gene-from-nowhere", lambda: f"{where}: locus {loc} was {vals} in every member, and there was no mutation")
            if n <= i.nPop // 2:
                ctx.probe("conservation_checked")
                for loc in range(len(R0[0])):
                    ctx.check(sum(r[loc] for r in R) % 2 == 0, "genes-not-conserved", lambda: f"{where}: locus {loc}")
        if p["p_c"] == 0.0:
            ctx.probe("copies_checked")
            ok = set()
            for k in range(len(R0)):
                not_better = sum(1 for j in range(len(R0)) if j != k and key[j] >= key[k])
                if not_better >= 1:
                    ok.add(R0[k])
            if n < i.nPop // 2:
                for r in c1:
                    ctx.check(r in ok, "worst-selected", lambda: f"{where}: {r} is {'the strictly worst candidate' if r in R0 else 'not a copy of any candidate'}")


class C07(GAProp):
    pid = "C07"
    runs = {"quick": 5000, "thorough": 150000}
    kinds = {"population-shape", "population-genes", "out-of-range", "decode-mismatch"}
    rule = "a run counts when at least one generation was bred from an evaluated one and compared with it"
    measure = "digest of the sequence of (population, fitness) pairs"

    def gen(self, rng, i, tier):
        spec = G.gen_inst(rng, rng.choice([0, 0, 1, 3]), stationary=True)
        spec.pop("custom_stop", None)
        spec["params"]["p_m"] = rng.choice(PM)
        spec["params"]["p_c"] = rng.choice([1, 1, 0.6, 0.0])
        ops = []
        for _ in range(rng.randint(2, 10)):
            r = rng.random()
            if r < 0.75:
                ops.append(["step"])
            elif r < 0.85:
                ops.append(["cross", rng.randrange(10**6)])
            elif r < 0.89:
                ops.append(["seedpop", rng.randrange(10**6)])
            elif r < 0.93:
                ops.append(["pairs", rng.choice([2, 4, 6, 10])])
            else:
                ops.append(["set", {"p_m": rng.choice(PM), "elitism": G.gen_elitism(rng, spec["nPop"])}])
        return {"seed": rng.randrange(2**31), "rng": rng.choice(["plain", "plain", "extreme"]),
                "insts": [spec], "ops": ops, "twin": rng.random() < 0.5}

    def life(self, case, ctx):
        m = G.Machine(dict(case, ops=[]), ctx, self.kinds)
        with G.RngSeam(ctx, case["rng"], case["seed"], self.kinds) as seam:
            m.seam = seam
            inst = G.Inst(m, 0, case["insts"][0])
            try:
                inst.build()
            except Exception as e:
                ctx.fail("unexpected-error", f"construction: {type(e).__name__}: {e}")
            m.insts.append(inst)
            inst.check_population("start")
            inst.check_phenotypes("start")
            g = Gen(m, inst)
            for op in case["ops"]:
                if op[0] == "step":
                    g.step()
                elif op[0] == "seedpop":
                    g.seedpop(op[1])
                elif op[0] == "set":
                    inst.ga.set_solution_params(**op[1])
                    inst.params.update(op[1])
                elif op[0] == "cross":
                    self.cross(inst, ctx, op[1])
                elif op[0] == "pairs":
                    self.pairs(inst, ctx, op[1])
            ctx.steps += inst.n_calls
            return g, inst

    def cross(self, inst, ctx, s):
        rs = np.random.RandomState(s)
        n = inst.dim * inst.L
        a, b = rs.randint(2, size=n), rs.randint(2, size=n)
        a0, b0 = a.copy(), b.copy()
        pm = inst.ga.p_m
        inst.ga.p_m = 0.0
        try:
            cut = [None, None, 1, 2, n - 2][s % 5]
            args = () if cut is None or not 1 <= cut <= n - 2 else (cut,)
            c, d = inst.ga.crossover(a, b, *args)
            e = inst.ga.mutate(a)
            inst.ga.p_m = 1.0
            f = inst.ga.mutate(a)
        finally:
            inst.ga.p_m = pm
        ctx.check((a == a0).all() and (b == b0).all(), "parents-modified", "crossover changed its parents")
        c, d = np.asarray(c), np.asarray(d)
        ctx.check(((c == a) & (d == b) | (c == b) & (d == a)).all(), "genes-not-conserved", f"{a} x {b} -> {c}, {d}")
        ctx.check((np.asarray(e) == a).all() and (np.asarray(f) == 1 - a).all(), "mutation-rate", f"{a} -> {e} at rate 0, {f} at rate 1")
        ctx.probe("crossover_checked")

    def pairs(self, inst, ctx, n):
        g = np.arange(n * 3).reshape(n, 3)
        out = [(tuple(a), tuple(b)) for a, b in inst.ga.random_parents_generator(g)]
        flat = sorted(x for p in out for x in p)
        ctx.check(flat == sorted(map(tuple, g)), "pairing", f"{n} parents were paired as {out}")
        ctx.probe("pairing_checked")

    def run(self, case, ctx):
        g, inst = self.life(case, ctx)
        bred = sum(1 for t in g.trace if t[0] != "failed")
        ctx.nontrivial = bred >= 2
        for t in g.trace:
            ctx.ev(t)
        if case.get("twin"):
            from ..core import Ctx

            c2 = Ctx()
            g2, _ = self.life(case, c2)
            ctx.check(g2.trace == g.trace, "not-reproducible", "the same seed of numpy's generator gave a different history")
            ctx.probe("twin_compared")
        ctx.sig = list(ctx.log)

    def shrink(self, case):
        yield from drop_each(case["ops"], "ops", case)
        for c in G.shrink_case(dict(case, ops=[])):
            yield dict(c, ops=case["ops"])
        if case.get("twin"):
            yield dict(case, twin=False)


PROP = C07()
