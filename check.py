#!/opt/venv/bin/python
"""check.py <ID> [--tier quick|thorough] [--replay FILE] [--dump-digests N]

Exit 0: property held on everything explored.  Exit 1: VIOLATION line.
Anything else: an error of the check."""
import argparse
import os
import shutil
import sys
import tempfile

PY = "/opt/venv/bin/python"
ENV = dict(
    PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="agg", OPENBLAS_NUM_THREADS="1",
    OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", DST_ENV="1",
)


def main():
    if os.environ.get("DST_ENV") != "1":
        env = dict(os.environ)
        env.update(ENV)
        env.setdefault("DST_HASHSEED", "0")
        env["PYTHONHASHSEED"] = env["DST_HASHSEED"]
        env.pop("PYTHONPATH", None)
        os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], env)
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--dump-digests", type=int)
    a = ap.parse_args()
    here = os.path.dirname(os.path.abspath(__file__))
    os.chdir(here)
    sys.path.insert(0, here)
    scratch = tempfile.mkdtemp(prefix="dst-")
    os.environ["NUMBA_CACHE_DIR"] = os.path.join(scratch, "numba")
    os.environ["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
    seed = int(os.environ.get("VERIF_SEED") or 1)
    from dst import core

    try:
        if a.replay:
            return core.run_replay(a.pid, a.replay)
        if a.dump_digests:
            prop = core.get_prop(a.pid)
            prop.setup()
            for i in range(a.dump_digests):
                case = prop.gen(core.run_rng(seed, a.pid, i), i, a.tier)
                ctx, v = core.execute(prop, case)
                print(i, core.digest(ctx.log), v.kind if v else "-")
            return 0
        return core.run_check(a.pid, a.tier, seed)
    except Exception:
        import traceback

        traceback.print_exc()
        print(f"HARNESS-ERROR property={a.pid}", flush=True)
        return 3
    finally:
        from dst import farm

        farm.stop_all()
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
