"""C19 Function snapshots replay the recorded results and are undone"""
import sys, types, math
from sx.ctx import Harness
from sx.core import charset
from props import lib, large
import booktest as bt
from booktest.functions import MockFunctions

ASSUMPTIONS = ["SHA-1 is an injective function", "texts are printable ASCII (other characters are escaped by json before hashing)",
               "functions are found by their name in their module or object; arguments and results survive JSON"]
TEXT = charset("".join(chr(c) for c in range(32, 127)))
SOME = charset("ab 1[\"\\")
REAL = None         # what the real functions do in this path
CALLED = []


def f(*args, **kw):
    CALLED.append(("f", args, kw))
    return REAL("f", args, kw)


def g(*args, **kw):
    CALLED.append(("g", args, kw))
    return REAL("g", args, kw)


class Thing:
    def m(self, *args, **kw):
        CALLED.append(("m", args, kw))
        return REAL("m", args, kw)


THING = Thing()
F, G, M = f, g, THING.m
OTHER = types.ModuleType("c19_other")


def _other(*args, **kw):
    CALLED.append(("o", args, kw))
    return REAL("o", args, kw)


_other.__name__ = _other.__qualname__ = "f"
_other.__module__ = "c19_other"
OTHER.f = _other


def restore():
    global f, g
    f, g = F, G
    THING.__dict__.pop("m", None)
    OTHER.f = _other
    sys.modules["c19_other"] = OTHER
    del CALLED[:]


def intact():
    return f is F and g is G and THING.m == M and OTHER.f is _other


def invoke(fn, args, kw):
    h = {"f": f, "g": g, "m": THING.m, "o": OTHER.f}[fn]
    return h(*args, **kw)


def same(ctx, a, b):
    """equal as JSON values; symbolic"""
    if isinstance(a, str) and isinstance(b, str):
        return ctx.eq(a, b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and ctx.all([same(ctx, x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and ctx.all([same(ctx, a[k], b[k]) for k in a])
    return type(a) is type(b) and a == b


def key_same(ctx, a, b):
    return a[0] == b[0] and ctx.all([same(ctx, a[1], b[1]), same(ctx, a[2], b[2])])


def call_of(ctx, name, funs, shapes, alphabet):
    fn = ctx.choice(name + " function", funs)
    shape = ctx.choice(name + " arguments", shapes)
    if shape == "none":
        return fn, [], {}
    if shape == "kwnone":
        return fn, [], {"k": None}
    if shape == "int":
        return fn, [ctx.choice(name + " int", [0, 1, True, None])], {}
    x = ctx.char(name, alphabet)
    return (fn,) + {"text": ([x], {}), "two": ([x, "b"], {}), "concat": ([x + "b"], {}), "kw": ([], {"k": x}), "list": ([[x]], {}),
                    "dict": ([{"k": x}], {})}[shape]


FUNCS = {"f": F, "g": G, "m": M, "o": _other}


def replay(ctx, before, after, funs, shapes, alphabet, modes, raises=(False,), kinds=(False,), mutate=False, firsts=("complete_snapshots", "refresh_snapshots"), values=None, lists=None):
    """capture some calls, then make others while replaying, completing or refreshing, then replay these"""
    global REAL
    restore()
    try:
        phase = ["1"]
        results = []

        def real(fn, args, kw):
            v = ctx.char("result %d" % len(results), values or alphabet) if len(results) < 2 else "%s%d" % (phase[0], len(results))
            v = [v] if mutate else v
            results.append(v)
            return list(v) if mutate else v
        REAL = real
        calls = []
        got = []
        raising = [False]
        is_async = ctx.choice("async", kinds)

        def body(t):
            for c in calls:
                v = invoke(*c)
                got.append(list(v) if mutate else v)
                if mutate:
                    v.append("changed")
            t.tln("line")
            if raising[0]:
                raise KeyError("boom")

        if is_async:
            async def case(t):
                body(t)
        else:
            def case(t):
                body(t)
        test = case
        for names in ctx.choice("decorators", lists) if lists else [funs]:
            test = bt.snapshot_functions(*[FUNCS[n] for n in names])(test)
        # first run: capture
        n = ctx.choice("recorded", range(before[0], before[1] + 1)) if before[0] != before[1] else before[0]
        calls[:] = [call_of(ctx, "old%d" % i, funs, shapes, alphabet) for i in range(n)]
        lib.run([("x", test)], {ctx.choice("first mode", firsts): True, "accept": True})
        ctx.check(intact(), "functions not restored after capturing")
        ctx.check(len(CALLED) == n and len(got) == n, lambda: "%d calls of %d executed" % (len(CALLED), n))
        record = []                    # (key, value), later ones win
        for i in range(n):
            ctx.check(same(ctx, got[i], results[i]), lambda: "capturing returned %r instead of %r" % (got[i], results[i]))
            record.append((calls[i], results[i]))
        # second run
        phase[0] = "2"
        mode = ctx.choice("mode", modes)
        raising[0] = ctx.choice("raises", raises)
        old = list(calls)
        calls[:] = [old[int(k)] if k != "n" else call_of(ctx, "new%d" % j, funs, shapes, alphabet)
                    for j, k in enumerate(ctx.choice("calls", after))
                    if k == "n" or int(k) < n]
        del CALLED[:], got[:]
        k0 = len(results)
        lib.run([("x", test)], dict({m: True for m in mode.split()}, accept=True, update=True))
        ctx.check(intact(), lambda: "functions not restored, mode %r raising %r" % (mode, raising[0]))
        now = []
        nreal = k0
        missing = False
        for j, c in enumerate(calls):
            hit = None
            if "refresh_snapshots" not in mode:
                for k, v in record:
                    if key_same(ctx, k, c):
                        hit = v
            if hit is None and not mode:
                missing = True
                break
            ctx.check(len(got) > j, lambda: "call %d did not return, mode %r, %r after %r" % (j, mode, calls, old))
            if hit is not None:
                ctx.reach("replayed")
                ctx.check(same(ctx, got[j], hit), lambda: "call %r returned %r instead of %r, recorded %r, real %r" % (c, got[j], hit, record, results))
                now.append((c, hit))
            else:
                ctx.reach("executed")
                ctx.check(len(results) > nreal, lambda: "call %r was not executed in mode %r" % (c, mode))
                ctx.check(same(ctx, got[j], results[nreal]), lambda: "call %r returned %r instead of %r" % (c, got[j], results[nreal]))
                now.append((c, results[nreal]))
                nreal += 1
        ctx.check(len(results) == nreal, "a recorded function was called")
        if missing:
            ctx.reach("missing")
            ctx.check(len(got) == len(now), lambda: "call %r without record returned %r" % (calls[len(now)], got[-1]))
            v = lib.read_cases("books/.out/cases.txt")[0][1]
            ctx.check(v == "FAIL", lambda: "verdict %s although a record was missing" % v)
            return
        if raising[0]:
            return
        # third run: the same calls again, nothing is called
        del CALLED[:], got[:]
        r = lib.run([("x", test)])
        ctx.check(intact(), "functions not restored")
        ctx.check(CALLED == [], lambda: "replaying called %r" % (CALLED,))
        ctx.check(len(got) == len(now), lambda: "replay stopped after %d of %d calls: %s" % (len(got), len(now), r.text))
        for j, (c, v) in enumerate(now):
            want = v
            for k, w in now:
                if key_same(ctx, k, c):
                    want = w
            ctx.check(same(ctx, got[j], want), lambda: "later replay of %r: %r instead of %r" % (c, got[j], want))
        ctx.check(r.of("x") == "OK", lambda: "verdict of the replay: %s" % r.of("x"))
        ctx.reach("done")
    finally:
        restore()


def names(ctx):
    """two functions of different modules with the same name"""
    global REAL
    restore()
    try:
        REAL = lambda fn, args, kw: "of " + fn
        got = []

        @bt.snapshot_functions(F, _other)
        def case(t):
            for fn in order:
                got.append((fn, invoke(fn, ["a"], {})))
        order = ctx.choice("order", [["f", "o"], ["o", "f"]])
        lib.run([("x", case)], {"complete_snapshots": True, "accept": True})
        ctx.check(intact(), "not restored")
        del got[:]
        lib.run([("x", case)])
        ctx.check(intact(), "not restored")
        for fn, v in got:
            ctx.check(v == "of " + fn, lambda: "a call of %s returned the record of the function of another module: %r" % (fn, v), finding="C19-samename")
        ctx.check(len(got) == 2, "replay stopped")
        ctx.reach("done")
    finally:
        restore()


def mocks(ctx, kinds):
    """mocked functions, alone, stacked and inside other mocks or snapshots"""
    global REAL
    restore()
    sqrt = math.sqrt
    try:
        REAL = lambda fn, args, kw: "real " + fn
        chosen = {}
        pool = {"f": F, "g": G, "m": M, "s": sqrt}
        for n in pool:
            if ctx.flag("mock " + n):
                chosen[pool[n]] = (lambda n: lambda *a, **k: "mock " + n)(n)
        inner = ctx.choice("inside", [None, "mock f", "snapshot f"])
        raising, is_async = ctx.flag("raises"), ctx.choice("async", kinds)
        seen = []

        def look():
            return [f(1), g(1), THING.m(1), math.sqrt(4)]

        def body(t):
            seen.append(look())
            if inner == "mock f":
                with MockFunctions({F: lambda *a: "inner f"}):
                    seen.append(look())
                    if raising:
                        raise ValueError("boom")
                seen.append(look())
            elif raising:
                raise ValueError("boom")
        if is_async:
            async def case(t):
                body(t)
        else:
            def case(t):
                body(t)
        test = bt.mock_functions(chosen)(case)
        if inner == "snapshot f":
            test = bt.mock_functions(chosen)(bt.snapshot_functions(G)(case))
        r = lib.run([("x", test)], {"complete_snapshots": True})
        ctx.check(intact() and math.sqrt is sqrt, lambda: "not restored: %r" % (chosen,))
        want = ["mock f" if F in chosen else "real f", "mock g" if G in chosen else "real g", "mock m" if M in chosen else "real m",
                "mock s" if sqrt in chosen else 2.0]
        if inner == "snapshot f":
            # the snapshot calls the original it was given
            want[1] = "real g"
        ctx.check(len(seen) >= 1 and seen[0] == want, lambda: "in the test %r instead of %r" % (seen, want))
        if inner == "mock f":
            ctx.check(seen[1] == ["inner f"] + want[1:], lambda: "inside %r" % (seen[1],))
            if not raising:
                ctx.check(seen[2][1:] == want[1:], lambda: "after the inner mock %r instead of %r" % (seen[2], want))
                ctx.check(seen[2][0] == want[0], lambda: "after the inner mock %r instead of %r" % (seen[2], want))
        ctx.check((r.of("x") == "FAIL") == raising, lambda: r.of("x"))
        ctx.reach("done")
    finally:
        math.sqrt = sqrt
        restore()


MODES = ["", "complete_snapshots", "refresh_snapshots", "complete_snapshots refresh_snapshots"]
HARNESSES = [
    Harness("replay", replay, dict(before=(0, 2), after=["0", "n", "nn", "01", "n0"], funs=["f", "g"], shapes=["text"], alphabet=charset("ab1"), modes=MODES,),
            dict(before=(0, 2), after=["0", "n", "nn", "01", "n0"], funs=["f", "g"], shapes=["text", "concat"], alphabet=SOME, modes=MODES),
            bounds="up to two recorded calls of two functions with any one-character argument and results, then up to two "
                   "others in each mode", witness=("replayed", "executed", "missing", "done")),
    Harness("shapes", replay, dict(before=(1, 1), after=["n"], funs=["f", "m"], shapes=["none", "kwnone", "int", "text", "two", "concat", "kw", "list", "dict"],
                                   alphabet=SOME, values=charset("ab"), modes=["", "complete_snapshots"], firsts=("complete_snapshots",)),
            dict(before=(1, 1), after=["n"], funs=["f", "m"], shapes=["none", "kwnone", "int", "text", "two", "concat", "kw", "list", "dict"],
                 alphabet=TEXT, modes=MODES, firsts=("complete_snapshots",)),
            bounds="one recorded call and one other, each of any argument shape and character, also of a method",
            witness=("replayed", "executed", "missing", "done")),
    Harness("endings", replay, dict(before=(1, 1), after=["0", "n"], funs=["f", "m"], shapes=["text"], alphabet=charset("ab"), modes=MODES,
                                    raises=(False, True), kinds=(False, True)),
            bounds="async and raising tests", witness=("replayed", "executed", "missing", "done")),
    Harness("mutated", replay, dict(before=(1, 1), after=["00", "0", "n"], funs=["f"], shapes=["text"], alphabet=SOME, modes=MODES, mutate=True),
            bounds="results changed by the test after it got them", witness=("replayed", "done")),
    Harness("repeated", replay, dict(before=(3, 3), after=["012", "n0n"], funs=["f"], shapes=["text"], alphabet=charset("ab"), modes=MODES[:3],
                                     firsts=("complete_snapshots",)),
            bounds="the same calls several times among others", witness=("replayed", "executed", "missing", "done")),
    Harness("stacked", replay, dict(before=(1, 1), after=["0", "n"], funs=["f", "g"], shapes=["text"], alphabet=charset("ab"), modes=MODES,
                                    raises=(False, True), lists=[["f", "g"], ["fgf"], ["fg", "g"], ["ff", "gg"]]),
            bounds="several decorators on a test, the same function named twice", witness=("replayed", "executed", "missing", "done")),
    Harness("names", names, bounds="functions of the same name in two modules", witness=("done",)),
    Harness("mocks", mocks, dict(kinds=(False, True)), bounds="any subset of four mocked functions, stacked and nested, raising and async", witness=("done",)),
    Harness("many calls", large.calls, dict(n=60, same=17),
            dict(n=300, same=101),
            bounds="60 calls, many of them the same, of which one has another argument", timeout=120, witness=("same", "different")),
]
