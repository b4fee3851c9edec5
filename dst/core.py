"""Run loop: seeded search, minimisation, replay, evidence."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import subprocess
import sys
import time
import traceback
from collections import Counter

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, "evidence")
REPLAYS = os.path.join(HERE, "replays")
KNOWN = os.path.join(HERE, "known_findings.json")

RUN_LIMIT_S = 120  # a single simulated run is never legitimately this long


class Violation(BaseException):
    """The property is broken: kind is the violation class.  Not an Exception,
    so that no handler of the code under test can swallow or rewrap it."""

    def __init__(self, kind, detail=""):
        super().__init__(f"{kind}: {detail}")
        self.kind = kind
        self.detail = str(detail)


class HarnessError(Exception):
    pass


class Ctx:
    """Per-run recorder.  Recording never draws randomness or reads a clock."""

    def __init__(self):
        self.counts = Counter()
        self.faults = Counter()
        self.log = []
        self.sig = []
        self.nontrivial = False
        self.steps = 0

    def ev(self, *what):
        self.log.append(what)

    def probe(self, name, n=1):
        self.counts[name] += n

    def fault(self, name, n=1):
        self.faults[name] += n

    def fail(self, kind, detail=""):
        raise Violation(kind, detail)

    def check(self, cond, kind, detail=""):
        if not cond:
            raise Violation(kind, detail() if callable(detail) else detail)


def digest(obj):
    return hashlib.sha256(repr(obj).encode()).hexdigest()[:16]


def run_rng(seed, pid, i):
    return random.Random(f"{seed}/{pid}/{i}")


class StopRun(BaseException):
    """Ends a run early without a verdict (another property's business)."""


class _Timeout(BaseException):
    pass


def _alarm(sig, frm):
    raise _Timeout()


def escaped(e):
    """An error of the code under test that no part of the machine expected,
    while it prepared or observed something (an error of the simulator itself
    or of its environment stays one)."""
    if isinstance(e, (HarnessError, OSError, MemoryError)) and "injected" not in str(e):
        raise e
    at = traceback.extract_tb(e.__traceback__)
    where = f"{os.path.basename(at[-1].filename)}:{at[-1].name}" if at else "?"
    return Violation("unexpected-error", f"{type(e).__name__} in {where}: {e}")


def execute(prop, case):
    """One simulated run: returns (ctx, violation-or-None)."""
    ctx = Ctx()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(RUN_LIMIT_S)
    try:
        prop.run(case, ctx)
        return ctx, None
    except Violation as v:
        ctx.ev("VIOLATION", v.kind)
        return ctx, v
    except StopRun as e:
        ctx.ev("STOP", str(e))
        ctx.probe("run_ended_early")
        return ctx, None
    except Exception as e:
        v = escaped(e)
        ctx.ev("VIOLATION", v.kind)
        return ctx, v
    except _Timeout:
        v = Violation("no-progress", f"run did not finish within {RUN_LIMIT_S} s")
        return ctx, v
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def get_prop(pid):
    return importlib.import_module(f"dst.props.{pid.lower()}").PROP


def known_findings(pid):
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        data = json.load(f)
    return [k for k in data.get("known", []) if k["property"] == pid]


def is_known(known, case, v):
    for k in known:
        m = k.get("match", {})
        if m.get("kind") == v.kind and m.get("detail_contains", "") in v.detail:
            return k
    return None


def _worker(pid, seed, tier, w, W, n, t_end, q):
    try:
        prop = get_prop(pid)
        known = known_findings(pid)
        res = dict(
            runs=0, counts=Counter(), faults=Counter(), sigs=set(), nontrivial=0,
            steps=0, violation=None, samples=[], known=Counter(), digests={}, capped=False,
        )
        for i in range(w, n, W):
            if time.monotonic() > t_end:
                res["capped"] = True
                break
            case = prop.gen(run_rng(seed, pid, i), i, tier)
            ctx, v = execute(prop, case)
            res["runs"] += 1
            res["counts"].update(ctx.counts)
            res["faults"].update(ctx.faults)
            res["steps"] += ctx.steps
            if ctx.nontrivial:
                res["nontrivial"] += 1
                res["sigs"].add(digest(ctx.sig))
                if len(res["samples"]) < 2:
                    res["samples"].append({"run": i, "case": case, "events": [str(e)[:200] for e in ctx.log[:25]]})
            if i < 16 * W:
                res["digests"][i] = digest(ctx.log)
            if v is not None:
                k = is_known(known, case, v)
                if k is not None:
                    res["known"][k["id"]] += 1
                    continue
                res["violation"] = (i, case, v.kind, v.detail)
                break
        q.put((w, res))
    except BaseException:
        q.put((w, traceback.format_exc()))


def minimise(prop, case, kind, budget_s=60):
    """Greedy shrinking while the same violation class persists."""
    t_end = time.monotonic() + budget_s
    best = case
    tried = 0
    improved = True
    while improved and time.monotonic() < t_end:
        improved = False
        for cand in prop.shrink(best):
            if time.monotonic() > t_end:
                break
            tried += 1
            try:
                _, v = execute(prop, cand)
            except Exception:
                continue
            if v is not None and v.kind == kind:
                best = cand
                improved = True
                break
    return best, tried


def size(case):
    return len(json.dumps(case))


def run_check(pid, tier, seed):
    prop = get_prop(pid)
    t0 = time.monotonic()
    n = prop.runs[tier]
    if os.environ.get("DST_RUNS"):
        n = int(os.environ["DST_RUNS"])
    cap = float(os.environ.get("DST_CAP_S", prop.cap_s[tier]))
    W = min(int(os.environ.get("DST_WORKERS", os.cpu_count() or 1)), 16, max(1, n))
    prop.setup()
    print(f"[{pid}] tier={tier} seed={seed} runs={n} workers={W}", flush=True)
    ctxm = mp.get_context("fork")
    q = ctxm.Queue()
    t_end = t0 + cap
    procs = [
        ctxm.Process(target=_worker, args=(pid, seed, tier, w, W, n, t_end, q))
        for w in range(W)
    ]
    for p in procs:
        p.start()
    outs = {}
    while len(outs) < W:
        try:
            w, r = q.get(timeout=5)
            outs[w] = r
        except Exception:
            if not any(p.is_alive() for p in procs) and q.empty():
                break
    for p in procs:
        p.join(timeout=10)
    if len(outs) < W:
        raise HarnessError("a worker died without reporting")
    bad = [r for r in outs.values() if isinstance(r, str)]
    if bad:
        raise HarnessError("worker failed:\n" + bad[0])
    tot = dict(runs=0, counts=Counter(), faults=Counter(), sigs=set(), steps=0, known=Counter(), nontrivial=0)
    viols, samples, digests, capped = [], [], {}, False
    for w in sorted(outs):
        r = outs[w]
        tot["runs"] += r["runs"]
        tot["steps"] += r["steps"]
        tot["nontrivial"] += r["nontrivial"]
        for k in ("counts", "faults", "known"):
            tot[k].update(r[k])
        tot["sigs"] |= r["sigs"]
        samples += r["samples"]
        digests.update(r["digests"])
        capped |= r["capped"]
        if r["violation"]:
            viols.append(r["violation"])
    # determinism: re-execute a sample of the runs in this process
    rechecked = mismatched = 0
    for i in sorted(digests)[:: max(1, len(digests) // 12)][:12]:
        case = prop.gen(run_rng(seed, pid, i), i, tier)
        c2, _ = execute(prop, case)
        rechecked += 1
        if digest(c2.log) != digests[i]:
            mismatched += 1
    replay = None
    if viols:
        i, case, kind, detail = min(viols, key=lambda v: v[0])
        print(f"[{pid}] run {i} violates the property: {kind}: {detail[:400]}", flush=True)
        before = size(case)
        case2, tried = minimise(prop, case, kind)
        c3, v3 = execute(prop, case2)
        os.makedirs(REPLAYS, exist_ok=True)
        replay = os.path.join(REPLAYS, f"{pid}-s{seed}-r{i}.json")
        with open(replay, "w") as f:
            json.dump(
                dict(
                    property=pid, seed=seed, run=i, tier=tier, kind=kind,
                    detail=(v3.detail if v3 else detail), case=case2,
                    original_size=before, minimised_size=size(case2), shrink_attempts=tried,
                    events=[str(e)[:400] for e in c3.log[:200]],
                ),
                f, indent=1,
            )
        rc = subprocess.run(
            [sys.executable, os.path.join(HERE, "check.py"), pid, "--replay", replay],
            capture_output=True, text=True,
        )
        print(f"[{pid}] minimised {before} -> {size(case2)} bytes in {tried} attempts; "
              f"fresh-process replay {'reproduced' if rc.returncode == 1 else 'rc=%d' % rc.returncode}", flush=True)
    wall = time.monotonic() - t0
    known = known_findings(pid)
    ev = dict(
        property=pid, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=tot["runs"], distinct_nontrivial=len(tot["sigs"]),
            rule=prop.rule, samples=samples[:4] or [{"note": "no non-trivial run"}],
            nontrivial_runs=tot["nontrivial"],
            runs_per_hour=int(tot["runs"] / wall * 3600),
            simulated_steps=tot["steps"], simulated_time=prop.sim_time,
            faults_injected=dict(sorted(tot["faults"].items())),
            probes=dict(sorted(tot["counts"].items())),
            distinct_measure=prop.measure,
            real_components=prop.real, stub_components=prop.stub,
            determinism_rechecked=rechecked, determinism_mismatches=mismatched,
            stopped_by_wall_cap=capped, known_findings_hit=dict(tot["known"]),
        ),
        assumptions=prop.assumptions, wall_s=round(wall, 2), violations=len(viols),
    )
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"[{pid}] {tot['runs']} runs, {len(tot['sigs'])} distinct non-trivial, "
          f"faults={dict(tot['faults'])}, {wall:.1f} s", flush=True)
    for k in known:
        print(f"KNOWN-FINDING: property={pid} {k['what']}", flush=True)
    if replay:
        print(f"VIOLATION property={pid} replay={replay}", flush=True)
        return 1
    if mismatched:
        raise HarnessError(f"{mismatched} of {rechecked} re-executed runs diverged: simulator not deterministic")
    return 0


def run_replay(pid, path):
    prop = get_prop(pid)
    prop.setup()
    with open(path) as f:
        data = json.load(f)
    ctx, v = execute(prop, data["case"])
    for e in ctx.log[:200]:
        print("  ", str(e)[:300])
    if v is None:
        print("replay: no violation")
        return 0
    same = v.kind == data["kind"]
    print(f"replay: {v.kind}: {v.detail[:600]}" + ("" if same else f"  (recorded kind: {data['kind']})"))
    print(f"VIOLATION property={pid} replay={path}")
    return 1


class Prop:
    """Base class of the simulated properties."""

    pid = None
    runs = {"quick": 200, "thorough": 2000}
    cap_s = {"quick": 500, "thorough": 3 * 3600}
    rule = ""
    measure = ""
    sim_time = "not clocked: the code has no timers; simulated steps are counted instead"
    real = []
    stub = []
    assumptions = []

    def setup(self):
        pass

    def gen(self, rng, i, tier):
        raise NotImplementedError

    def run(self, case, ctx):
        raise NotImplementedError

    def shrink(self, case):
        return iter(())


def drop_each(lst, key, case):
    """Shrinker: drop blocks, then single elements, of case[key]."""
    n = len(lst)
    blk = n // 2
    while blk >= 1:
        for a in range(0, n, blk):
            c = dict(case)
            c[key] = lst[:a] + lst[a + blk :]
            if len(c[key]) < n:
                yield c
        blk //= 2
