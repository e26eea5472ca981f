"""C18 Environment mocks take effect and are undone exactly"""
import os, json
from sx.ctx import Harness
from sx.core import charset
from props import lib, large
import booktest as bt

ASSUMPTIONS = ["values are over printable ASCII, tab and two characters beyond (JSON escapes are enumerated); one snapshot_env per test"]
VALUE = charset("".join([chr(c) for c in range(32, 127)]) + "\t\u00e9\U0001f600")
ABSENT = "absent"


def current(names):
    return {n: os.environ.get(n, ABSENT) for n in names}


def same_env(ctx, a, b):
    """equal values, symbolic texts included"""
    conds = []
    for n in a:
        if a[n] is ABSENT or b[n] is ABSENT:
            conds.append((a[n] is ABSENT) == (b[n] is ABSENT))
        else:
            conds.append(ctx.eq(a[n], b[n]))
    return ctx.all(conds)


def mocks(ctx, nnames, stacks, alphabet, actions, modes, raises, kinds, wrong):
    names = ["BTV_%s" % c for c in "ABC"[:nnames]]
    start = {}
    for n in names:
        start[n] = (ctx.char(n, alphabet) if n == names[0] else "") if ctx.flag("has " + n) else ABSENT
        if start[n] is not ABSENT:
            os.environ[n] = start[n]
    stack = ctx.choice("decorators", stacks)
    mode = ctx.choice("mode", modes)
    config = {"": {}, "-s": {"complete_snapshots": True}, "-S": {"refresh_snapshots": True},
              "-s -S": {"complete_snapshots": True, "refresh_snapshots": True}}[mode]
    capturing = mode != ""
    decos = []
    snap = {}
    for k, d in enumerate(stack):
        values = {}
        for n in names:
            if d == "snapshot":
                v = ctx.choice("snapshot of " + n, [ABSENT, None, "snap " + n if n != names[-1] else "", "-"])
                if v == "-":
                    # the test does not name it
                    continue
                values[n] = None
                if v is not ABSENT:
                    snap[n] = v
            else:
                v = ctx.choice("%s %d of %s" % (d, k, n), [ABSENT, None, "mock%d" % k if n != names[-1] else ""] + ([5] if wrong and n == names[-1] else []))
                if v is not ABSENT:
                    values[n] = v
        decos.append((d, values))
    if "snapshot" in stack and ctx.flag("snapshot file"):
        lib.write("books/x/.env.json", json.dumps(snap))
    else:
        snap = {}
    act = {}
    raising = raises and ctx.flag("raises")
    is_async = "async" in kinds and ctx.flag("async")
    seen = []

    def body(t):
        seen.append(current(names))
        for n in names:
            act[n] = ctx.choice("test does to " + n, actions if n == names[0] else actions[-2:])
            if act[n] == "set":
                os.environ[n] = "changed"
            elif act[n] == "delete":
                os.environ.pop(n, None)
        t.tln("line")
        if raising:
            raise ValueError("boom")
    if is_async:
        async def f(t):
            body(t)
    else:
        def f(t):
            body(t)
    for d, values in reversed(decos):
        if d == "mock":
            f = bt.mock_env(values)(f)
        elif d == "missing":
            f = bt.mock_missing_env(values)(f)
        else:
            f = bt.snapshot_env(*values.keys())(f)
    r = lib.run([("x", f)], config)
    # what the decorators say
    now = dict(start)
    undo = []
    failed = False
    captured = None
    for d, values in decos:
        old = {n: now[n] for n in values}
        undo.append(old)
        if d == "snapshot":
            captured = {}
        for n, v in values.items():
            if d == "mock" and v is None or d == "snapshot" and "-S" not in mode and n in snap and snap[n] is None:
                now[n] = ABSENT
            elif v == 5 and (d == "mock" or not capturing and now[n] is ABSENT):
                failed = True
            elif d == "mock":
                now[n] = v
            elif d == "missing":
                if not capturing and now[n] is ABSENT and v is not None:
                    now[n] = v
            elif "-S" not in mode and n in snap:
                now[n] = snap[n]
            elif not capturing:
                failed = True
            if d == "snapshot":
                captured[n] = None if now[n] is ABSENT else now[n]
            if failed:
                break
        if failed:
            break
    after = dict(now)
    if failed:
        ctx.reach("set-up failed")
        ctx.check(seen == [], "the test was called, although its set-up fails")
    else:
        ctx.reach("called")
        ctx.check(len(seen) == 1, lambda: "the test was called %d times\n%s" % (len(seen), r.text))
        ctx.check(same_env(ctx, seen[0], now), lambda: "in the test %r instead of %r, %r, snapshot %r, mode %r" % (seen[0], now, decos, snap, mode))
        for n in names:
            if act[n] == "set":
                after[n] = "changed"
            elif act[n] == "delete":
                after[n] = ABSENT
    for old in reversed(undo):
        after.update(old)
    end = current(names)
    ctx.check(same_env(ctx, end, after), lambda: "afterwards %r instead of %r, %r, test %r" % (end, after, decos, act))
    v = r.of("x")
    ctx.check((v == "FAIL") == (failed or raising), lambda: "verdict %s, raising %r, failed %r" % (v, raising, failed))
    if captured is not None and not failed:
        t = lib.read("books/.out/x/.env.json")
        ctx.check(t is not None, "nothing captured")
        got = json.loads(t)
        ctx.check(sorted(got.keys()) == sorted(captured.keys()), lambda: "captured %r instead of %r" % (got, captured))
        for n in captured:
            ctx.check((got[n] is None) == (captured[n] is None), lambda: "captured %r instead of %r" % (got, captured))
            if captured[n] is not None:
                ctx.check(ctx.eq(got[n], captured[n]), lambda: "captured %r instead of %r" % (got, captured))


def recapture(ctx, alphabet, chars):
    """capture, accept, and replay in another environment"""
    names = ["BTV_A", "BTV_B"]
    first = {}
    for n in names:
        first[n] = (ctx.text(n, (0, chars), alphabet) if n == names[0] else "") if ctx.flag("has " + n) else ABSENT
        if first[n] is not ABSENT:
            os.environ[n] = first[n]
    seen = []

    @bt.snapshot_env(*names)
    def f(t):
        seen.append(current(names))
        t.tln("line")
    mode = ctx.choice("mode", ["complete_snapshots", "refresh_snapshots"])
    r = lib.run([("x", f)], {mode: True, "accept": True})
    ctx.check(r.of("x") == "OK", lambda: "capturing: %s" % r.of("x"))
    for n in names:
        how = ctx.choice("later " + n, ["same", "absent", "other"])
        if how == "absent":
            os.environ.pop(n, None)
        elif how == "other":
            os.environ[n] = "other"
    before = current(names)
    r = lib.run([("x", f)])
    ctx.check(len(seen) == 2, lambda: "not replayed:\n%s" % r.text)
    ctx.check(same_env(ctx, seen[1], first), lambda: "replayed %r instead of %r" % (seen[1], first))
    ctx.check(same_env(ctx, current(names), before), "not restored")
    ctx.check(r.of("x") == "OK", lambda: "replaying: %s" % r.of("x"))
    ctx.reach("replayed")


def plain(ctx):
    """the helpers used directly, and a mock used twice"""
    from booktest.env import MockEnv
    m = MockEnv({"BTV_A": ctx.choice("value", [None, "m"]), "BTV_B": "n"})
    if ctx.flag("has"):
        os.environ["BTV_A"] = "old"
    before = current(["BTV_A", "BTV_B"])
    for k in range(2):
        m.start()
        try:
            twice = False
            m.start()
            twice = True
        except ValueError:
            pass
        ctx.check(not twice, "started twice")
        ctx.check(os.environ.get("BTV_B") == "n", "not mocked")
        m.stop()
        ctx.check(current(["BTV_A", "BTV_B"]) == before, "not restored")
    ctx.reach("done")


A = ["", "set", "delete"]
HARNESSES = [
    Harness("single", mocks, dict(nnames=2, stacks=[["mock"], ["missing"], ["snapshot"]], alphabet=VALUE, actions=A, modes=["", "-s", "-S", "-s -S"],
                                  raises=False, kinds=[], wrong=False),
            dict(nnames=2, stacks=[["mock"], ["missing"], ["snapshot"]], alphabet=VALUE, actions=A, modes=["", "-s", "-S", "-s -S"],
                 raises=True, kinds=["async"], wrong=True),
            bounds="one decorator over two variables, any start value of one character, any mocked or snapshotted "
                   "value, any action of the test, replaying, completing and refreshing", witness=("called", "set-up failed")),
    Harness("stacked", mocks, dict(nnames=1, stacks=[[a, b] for a in ("mock", "missing", "snapshot") for b in ("mock", "missing", "snapshot")
                                                     if (a, b) != ("snapshot", "snapshot")],
                                   alphabet=VALUE, actions=A, modes=["", "-s", "-S"], raises=True, kinds=["async"], wrong=True),
            dict(nnames=2, stacks=[[a, b] for a in ("mock", "missing", "snapshot") for b in ("mock", "missing", "snapshot")
                                   if (a, b) != ("snapshot", "snapshot")],
                 alphabet="v", actions=A[1:], modes=["", "-s"], raises=False, kinds=[], wrong=True),
            bounds="two decorators over one (two) variables, raising, async and failing set-ups", witness=("called", "set-up failed")),
    Harness("recapture", recapture, dict(alphabet=VALUE, chars=1), dict(alphabet=VALUE, chars=2), bounds="captured and replayed in any other environment", witness=("replayed",)),
    Harness("plain", plain, witness=("done",)),
    Harness("many variables", large.environment, dict(n=40),
            dict(n=200),
            bounds="40 variables, set or not before, given a value or removed", timeout=120, witness=("done",)),
]
