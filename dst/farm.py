"""Child interpreters with a chosen PYTHONHASHSEED.

The iteration order of sets of strings and symbols is a source of
nondeterminism fixed when an interpreter starts; a run that names a hash seed
is executed in a long-lived child interpreter started with it."""
import json
import os
import subprocess
import sys
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_kids = {}


def _start(h):
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = str(h)
    return subprocess.Popen(
        [sys.executable, "-c", "import sys; sys.path.insert(0, %r); from dst import farm; farm.serve()" % HERE],
        stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd=HERE, text=True,
    )


def run(pid, h, case):
    key = (os.getpid(), h)
    k = _kids.get(key)
    if k is None:
        while len(_kids) >= 8:
            stop(next(iter(_kids)))
        k = _kids[key] = _start(h)
    try:
        k.stdin.write(json.dumps([pid, case]) + "\n")
        k.stdin.flush()
        line = k.stdout.readline()
        if not line:
            from .core import HarnessError

            raise HarnessError("child interpreter died")
        return json.loads(line)
    except BaseException:
        stop(key)
        raise


def stop(key):
    k = _kids.pop(key, None)
    if k is not None and key[0] == os.getpid():
        k.kill()
        k.wait()


def stop_all():
    for key in list(_kids):
        stop(key)


def serve():
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)  # stray prints of the code under test
    from . import core

    props = {}
    for line in sys.stdin:
        pid, case = json.loads(line)
        if pid not in props:
            props[pid] = core.get_prop(pid)
            props[pid].setup()
        ctx = core.Ctx()
        v = None
        err = None
        try:
            props[pid].run(case, ctx)
        except core.Violation as e:
            ctx.ev("VIOLATION", e.kind)
            v = [e.kind, e.detail]
        except Exception as e:
            try:
                e = core.escaped(e)
                v = [e.kind, e.detail]
                ctx.ev("VIOLATION", e.kind)
            except Exception:
                err = traceback.format_exc()
        except BaseException:
            err = traceback.format_exc()
        out.write(json.dumps(dict(
            counts=dict(ctx.counts), faults=dict(ctx.faults), steps=ctx.steps, nontrivial=bool(ctx.nontrivial),
            sig=[str(x) for x in ctx.sig], log=[repr(e) for e in ctx.log], v=v, err=err,
        )) + "\n")
        out.flush()
    os._exit(0)
