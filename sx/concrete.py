"""Runs harnesses on the real, uninstrumented code with the values of solver models.  One forked child per task."""
import json, os, select, shutil, signal, sys, tempfile, time, traceback


def child(h, params, model, env, known, tier, w):
    from .core import Pruned, Violation
    from .ctx import ConcCtx
    ctx = ConcCtx(env, known, tier, model)
    out = dict(status="ok")
    env.begin()
    try:
        try:
            h.fn(ctx, **params)
        finally:
            env.end()
    except Pruned:
        out["status"] = "pruned"
    except Violation as v:
        out.update(status="violation", msg=v.msg)
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        out.update(status="exception", msg="%s: %s" % (type(e).__name__, str(e)[:300]),
                   where=["%s:%d %s" % (f.filename, f.lineno, f.name) for f in tb[-4:]])
    from .run import subst
    try:
        out["obs"] = [[a, subst(b, {}, None)] for a, b in ctx.obs]
    except Exception as e:
        out["obs"] = ["unprintable %s" % e]
    out["findings"] = {k: v[0] for k, v in ctx.findings.items()}
    os.write(w, (json.dumps(out, default=str)).encode())
    os._exit(0)


def main():
    real_stdout = os.dup(1)
    os.dup2(2, 1)
    req = json.load(sys.stdin)
    from . import run, env as envmod
    run.setup_imports(False)
    mod = run.load(req["prop"])
    known = set(run.known_for(req["prop"]))
    hs = {h.name: h for h in mod.HARNESSES}
    d = tempfile.mkdtemp(prefix="c", dir=req["base"])
    try:
        os.chown(d, envmod.NOBODY, envmod.NOBODY)
    except OSError:
        pass
    envmod.drop_privileges()
    os.environ["HOME"] = d
    env = envmod.Env(d)
    env.remember()
    results = []
    for i, t in enumerate(req["tasks"]):
        h = hs[t["h"]]
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            os.setsid()
            child(h, h.params[req["tier"]], t["model"], env, known, req["tier"], w)
        os.close(w)
        buf = b""
        end = time.monotonic() + max(30, 1.5 * h.timeout)
        res = None
        while True:
            left = end - time.monotonic()
            if left <= 0:
                res = dict(status="timeout", msg="no answer within %d s" % max(30, 1.5 * h.timeout), obs=[])
                break
            rr, _, _ = select.select([r], [], [], left)
            if rr:
                b = os.read(r, 1 << 16)
                if not b:
                    break
                buf += b
        os.close(r)
        try:
            envmod._real["killpg"](pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(pid, 0)
        if res is None:
            try:
                res = json.loads(buf)
            except ValueError:
                res = dict(status="exception", msg="process died", obs=[])
        results.append(res)
    os.write(real_stdout, (json.dumps(results) + "\n").encode())
