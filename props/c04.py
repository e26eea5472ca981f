"""C04 A recorded failure, exception or false assertion makes the test FAIL"""
import os, pickle
from sx.ctx import Harness
from sx.core import ALL_UNICODE, charset
from props import lib, ops, large

ASSUMPTIONS = ["a raised exception is an Exception; exit requests and keyboard interrupts end the run and belong to C14"]


class Custom(Exception):
    pass


class Untold(Exception):
    """an error that can't be told"""

    def __str__(self):
        raise KeyError("no text")


STEPS = ["line", "changed", "info", "unfinished", "fail alone", "fail line", "diff alone", "assert", "contain", "equal", "be_a",
         "apply", "time", "raise", "unwritable"]


def step(ctx, k, kind, log):
    """(what to do, does it record a failure)"""
    p = "s%d." % k
    if kind == "line":
        log.add("same"), log.add("\n")
        return lambda t: t.tln("same"), False
    if kind == "changed":
        log.add("other"), log.add("\n")
        return lambda t: t.tln("changed"), False
    if kind == "info":
        log.add("info", False), log.add("\n", False)
        return lambda t: t.iln("info"), False
    if kind == "unfinished":
        log.add("#")
        return lambda t: t.t("#"), False
    if kind == "fail alone":
        return lambda t: t.fail(), True
    if kind == "diff alone":
        return lambda t: t.diff(), False
    if kind == "fail line":
        log.add("x"), log.add("\n")
        return lambda t: t.fail().tln("x"), True
    if kind == "assert":
        c = ctx.flag(p + "cond")
        m = ctx.choice(p + "msg", [None, "reason"])
        log.add("ok", False), log.add("\n", False)
        return lambda t: t.assertln(c, m), not c
    if kind in ("contain", "equal", "be_a", "apply"):
        a, b = ctx.char(p + "a", "ab"), ctx.char(p + "b", "ab")
        same = bool(ctx.eq(a, b))
        log.header("## n..")
        log.add("must", False), log.add("\n", False)
        if kind == "contain":
            return lambda t: t.it("n", [a]).must_contain(b), not same
        if kind == "equal":
            return lambda t: t.it("n", [a]).must_equal([b]), not same
        if kind == "apply":
            return lambda t: t.it("n", a).must_apply("hold", lambda x: x == b), not same
        typ = ctx.choice(p + "type", [str, int, object])
        return lambda t: t.it("n", a).must_be_a(typ), typ is not str
    if kind == "time":
        d = ctx.int(p + "took", 0, 2)
        limit = ctx.choice(p + "limit", [0, 999, 1000, 1999])
        late = bool(d * 1000 > limit)
        log.add("ms", False), log.add("\n", False)

        def slow():
            ctx.env._now += d
            return 5

        def timed(t):
            keep = ctx.env.clock
            ctx.env._now = 5000
            ctx.env.clock = lambda: ctx.env._now
            try:
                t.tmsln(slow, limit)
            finally:
                ctx.env.clock = keep
                ctx.env._now = 6000.0
        return timed, late
    if kind == "unwritable":
        text = ctx.choice(p + "text", ["\ud800", "a \udc80 b", "1\udfff"])
        f = ctx.choice(p + "way", [lambda t: t.tln(text), lambda t: t.t(text), lambda t: t.iln(text), lambda t: t.h1(text), lambda t: t.tset([text])])
        return f, True
    e = ctx.choice(p + "exc", [ValueError("x"), Custom(), AssertionError(), KeyError("k\nl"), Untold(), ValueError("x\ud800y")])

    def throw(t):
        raise e
    return throw, True


def failures(ctx, n, names):
    kinds = [ctx.choice("k%d" % k, names) for k in range(n)]
    log = ops.Log()
    steps, failed = [], False
    for k, kind in enumerate(kinds):
        if "raise" in kinds[:k] or "unwritable" in kinds[:k]:
            ctx.assume(kind == "line")
        f, bad = step(ctx, k, kind, log)
        # headers in the middle of a line are left out, as in C02
        ctx.assume(not (kind in ("contain", "equal", "be_a", "apply") and k > 0 and kinds[k - 1] == "unfinished"))
        steps.append(f)
        failed = failed or bad
    snapshot = ctx.choice("snapshot", ["same", "none", "empty"])
    is_async = ctx.flag("async")
    if snapshot == "same":
        lib.write("books/x.md", log.file())
    elif snapshot == "empty":
        lib.write("books/x.md", "")
    bin_path = "books/.out/x.bin"
    os.makedirs("books/.out")
    with open(bin_path, "wb") as h:
        pickle.dump("old", h)
    cache = {}

    def test(t):
        for f in steps:
            f(t)
        return "new"

    async def atest(t):
        for f in steps:
            f(t)
        return "new"
    r = lib.run([("x", atest if is_async else test)], cache=cache)
    v = r.of("x")
    ctx.observe("verdict", v)
    with open(bin_path, "rb") as h:
        stored = pickle.load(h)
    got = cache[bin_path] if bin_path in cache else None
    if failed:
        ctx.reach("failed")
        ctx.check(v == "FAIL", lambda: "%s although a failure was recorded: %r" % (v, kinds))
        ctx.check(stored == "old" and got is None, lambda: "the value of a failed test was stored: %r, %r" % (stored, got))
        ctx.check(r.verdict.name == "FAIL", "the run did not fail")
    else:
        ctx.reach("not failed")
        ctx.check(v != "FAIL", lambda: "FAIL without a failure: %r" % (kinds,))
        ctx.check(stored == "new" and got == "new", lambda: "the value was not stored: %r, %r" % (stored, got))
        if snapshot == "none":
            ctx.check(v == "DIFF", "no snapshot, but OK")
        if snapshot == "same":
            bad = "changed" in kinds or "diff alone" in kinds
            ctx.check(v == ("DIFF" if bad else "OK"), lambda: "%s for %r over its own output" % (v, kinds))


def require(it, kind, arg):
    if kind == "contain":
        return arg in it
    if kind == "equal":
        return it == arg
    if kind == "be_a":
        return type(it) is type(arg)
    if kind == "length":
        return len(it) == 1
    return arg


def objects(ctx, n, kinds, values, args):
    """requirements on objects of several kinds, one after the other"""
    c = ctx.char("c", "ab")
    made = {"none": None, "empty list": [], "empty text": "", "zero": 0, "list": [c], "text": c + "a", "dict": {"a": c}, "false": False, "one": 1, "true": True,
            "char": c, "nested": [[c], None], "nan": float("nan"), "half": 0.5}
    it = made[ctx.choice("it", values)]
    todo = [(ctx.choice("kind%d" % k, kinds), made[ctx.choice("arg%d" % k, args)]) for k in range(n)]
    bad = False
    for kind, arg in todo:
        try:
            if not require(it, kind, arg):
                bad = True
        except TypeError:
            bad = True
            break

    def test(t):
        i = t.it("object", it)
        for kind, arg in todo:
            if kind == "contain":
                i = i.must_contain(arg)
            elif kind == "equal":
                i = i.must_equal(arg)
            elif kind == "be_a":
                i = i.must_be_a(type(arg))
            elif kind == "length":
                i = i.must_apply("be one", lambda x: len(x) == 1)
            elif kind == "member":
                t.it("outer", {"m": arg}).member("m", lambda x: x["m"]).must_apply("hold", lambda x: x)
            elif kind == "direct":
                t.must_apply(it, "hold", lambda x: arg, "reason")
            else:
                t.t("holds? ").assertln(arg, ctx.choice("message", [None, "reason"]))
    v = lib.run([("x", test)]).of("x")
    ctx.observe("verdict", v)
    ctx.reach("failed" if bad else "not failed")
    ctx.check(v == ("FAIL" if bad else "DIFF"), lambda: "%s for %r and %r" % (v, it, todo))


def limits(ctx, tooks, limits_, whole):
    """how long it took, around the limit"""
    took = ctx.choice("took", tooks) if ctx.flag("fraction") else ctx.int("whole", 0, whole)
    limit = ctx.choice("limit", limits_)
    late = bool(took * 1000 > limit)
    got = []

    def slow():
        ctx.env._now += took
        return 5

    def test(t):
        keep = ctx.env.clock
        ctx.env._now = 4096
        ctx.env.clock = lambda: ctx.env._now
        try:
            got.append(t.tmsln(slow, limit))
        finally:
            ctx.env.clock = keep
            ctx.env._now = 6000.0
    v = lib.run([("x", test)]).of("x")
    ctx.reach("late" if late else "in time")
    ctx.check(got == [5], "the measured function's value is lost")
    ctx.check(v == ("FAIL" if late else "DIFF"), lambda: "%s after %r s, limit %r ms" % (v, took, limit))


VALUES = ["none", "empty list", "empty text", "zero", "list", "text", "dict", "false", "one", "true", "nested", "nan", "half"]
HARNESSES = [
    Harness("objects", objects, dict(n=1, kinds=["contain", "equal", "be_a", "length", "assert", "member", "direct"], values=VALUES, args=VALUES + ["char"]),
            dict(n=2, kinds=["contain", "equal", "be_a", "assert"], values=["none", "empty list", "list", "text", "false", "zero"],
                 args=["none", "empty list", "list", "char", "false", "zero", "nested"]),
            bounds="one (two) requirements of every kind on objects of 13 kinds, with arguments of 14", witness=("failed", "not failed")),
    Harness("limits", limits, dict(tooks=[0.0, 0.00048828125, 0.5, 1.00048828125, 0.9990234375], limits_=[0, 0.25, 0.5, 500, 999, 1000, 1000.25, 1001], whole=3),
            bounds="times of 0 to 3 seconds around eight limits, with fractions of milliseconds", witness=("late", "in time")),
    Harness("steps", failures, dict(n=2, names=STEPS), dict(n=3, names=STEPS),
            bounds="every sequence of 2 (3) output and failure steps, three snapshots, synchronous or not",
            witness=("failed", "not failed")),
    Harness("order", failures, dict(n=3, names=["line", "changed", "info", "unfinished", "fail alone", "raise"]),
            dict(n=5, names=["line", "changed", "info", "unfinished", "fail alone", "raise"]),
            bounds="a failure anywhere in 3 (5) steps", witness=("failed", "not failed")),
    Harness("large", large.failing, dict(n=300),
            dict(n=2000),
            bounds="one or all of 300 lines failed", timeout=120, witness=("done",)),
]
