"""C38 Decorators combine in any order and keep the test's place, dependencies and result"""
import os, sys, types
from sx.ctx import Harness
from sx.core import charset
from props import lib, http
from props.c27 import book
import booktest as bt
from booktest.testsuite import decorate_tests

ASSUMPTIONS = ["SHA-1 is an injective function", "the network is a stand-in", "the combined decorators name different variables and functions "
               "(or the same in nested mocks, where the inner one counts)"]
TEXT = charset("".join(chr(c) for c in range(33, 127) if c not in (34, 92)))
CALLED = []
NOW = {}


def fa(x):
    CALLED.append("fa")
    return NOW["fa"]


def fb(x):
    CALLED.append("fb")
    return NOW["fb"]


def fake(x):
    return "fake" + x


FA, FB = fa, fb


def restore():
    global fa, fb
    fa, fb = FA, FB
    del CALLED[:]
    NOW.clear()


def environment():
    return {k: os.environ.get(k) for k in ("X_MOCK", "X_MISSING", "X_SNAP", "X_OTHER")}


def combined(ctx, n, pool, forms, hows, endings, alphabet, deps=(True,)):
    """the same test under n decorators in any order: capture, then replay"""
    restore()
    names = []
    for k in range(n):
        names.append(ctx.choice("decorator %d" % k, [d for d in pool if d not in names]))
    form, how, ending = ctx.choice("form", forms), ctx.choice("how", hows), ctx.choice("ending", endings)
    with_dep = ctx.choice("dependency", deps)
    value, snap = ctx.char("mocked", alphabet), ctx.char("snapped", alphabet)
    NOW["fb"] = ctx.char("result", alphabet)
    NOW["fa"] = "real"
    content = ctx.char("content", alphabet)
    events, seen, got, ran = [], [], [], []

    def around():
        events.append("in")
        yield
        events.append("out")
    made = {
        "mock_env": lambda: bt.mock_env({"X_MOCK": value, "X_OTHER": None}),
        "mock_env inner": lambda: bt.mock_env({"X_MOCK": "inner"}),
        "missing": lambda: bt.mock_missing_env({"X_MISSING": value, "X_OTHER": "no"}),
        "snapshot_env": lambda: bt.snapshot_env("X_SNAP"),
        "mock_functions": lambda: bt.mock_functions({FA: fake}),
        "snapshot_functions": lambda: bt.snapshot_functions(FB),
        "requests": lambda: bt.snapshot_requests(),
        "httpx": lambda: bt.snapshot_httpx(),
        "setup": lambda: bt.setup_teardown(around),
    }
    os.environ["X_SNAP"] = snap
    os.environ["X_OTHER"] = "other"
    os.environ.pop("X_MISSING", None)
    if ctx.flag("defined"):
        os.environ["X_MOCK"] = "old"
    else:
        os.environ.pop("X_MOCK", None)
    sess = http.session()
    me = sys.modules[__name__]

    def work(t, args):
        ran.append(1)
        answers = []
        for l in ("requests", "httpx"):
            if l in names:
                answers.append(http.exchange(l, sess, http.prepare(l, "GET", "p", {}, None)).content.decode("utf-8"))
        seen.append((environment(), me.fa("1"), me.fb("2"), answers, list(args), list(events)))
        t.tln("line")
        if ending == "raise":
            raise ValueError("boom")
        if ending == "fail":
            t.fail().tln("bad")
        return ["value", value]

    def under(f):
        dec = [made[k]() for k in names]
        if how == "stacked":
            for d in dec:
                f = d(f)
        elif how == "combined":
            f = bt.combine_decorators(*dec)(f)
        elif how == "split":
            f = bt.combine_decorators(*dec[1:])(dec[0](f))
        return f

    def tests():
        res = bt.Resource("port", "id")
        if form in ("function", "async"):
            def dep(t):
                t.tln("dep")
                return "dependency"
            if form == "async":
                async def f(t, *args):
                    return work(t, args)
            else:
                def f(t, *args):
                    return work(t, args)
            f.__name__ = f.__qualname__ = "test_x"
            place = ctx.choice("depends_on", ["inner", "outer"]) if with_dep else None
            if place == "inner":
                f = bt.depends_on(dep, res)(f)
            f = under(f)
            if place == "outer":
                f = bt.depends_on(dep, res)(f)

            def after(t, v):
                got.append(v)
                t.tln("after")
            after = bt.depends_on(f)(after)
            cases = [["s/after", after], ["s/x", f], ["s/dep", dep]]
            if how == "suite":
                return bt.merge_tests([bt.Tests([cases[0]]), decorate_tests(bt.combine_decorators(*[made[k]() for k in names]), bt.Tests([cases[1]])),
                                       bt.Tests([cases[2]])])
            return bt.Tests(cases)

        def test_dep(self, t):
            t.tln("dep")
            return "dependency"
        if form == "async method":
            async def test_x(self, t, *args):
                return work(t, args)
        else:
            def test_x(self, t, *args):
                return work(t, args)
        place = ctx.choice("depends_on", ["inner", "outer"]) if with_dep else None
        f = test_x
        if place == "inner":
            f = bt.depends_on(test_dep, res)(f)
        f = under(f)
        if place == "outer":
            f = bt.depends_on(test_dep, res)(f)

        def test_after(self, t, v):
            got.append(v)
            t.tln("after")
        c = book("Book", __name__, [("test_after", bt.depends_on(f)(test_after)), ("test_x", f), ("test_dep", test_dep)])
        b = c("s")
        if how == "suite":
            one = bt.Tests([x for x in b.cases if x[0] == "s/x"])
            rest = [x for x in b.cases if x[0] != "s/x"]
            return bt.merge_tests([bt.Tests(rest[:1]), decorate_tests(bt.combine_decorators(*[made[k]() for k in names]), one), bt.Tests(rest[1:])])
        return b.test_suite
    suite = tests()
    ctx.check(sorted(suite.all_names()) == ["s/after", "s/dep", "s/x"], lambda: "cases %r" % suite.all_names())
    before = environment()

    def respond(k):
        return 200, {"Content-Type": "text/plain"}, content.encode("utf-8")

    def right(capturing):
        env, a, b, answers, args, evs = seen[-1]
        want = dict(before)
        if "mock_env" in names or "mock_env inner" in names:
            # the one applied first is the inner one
            mocks = [k for k in names if k.startswith("mock_env")]
            want["X_MOCK"] = value if mocks[0] == "mock_env" else "inner"
        if "mock_env" in names:
            want["X_OTHER"] = None
        if "missing" in names and not capturing:
            want["X_MISSING"] = value
            if "mock_env" in names and names.index("missing") < names.index("mock_env"):
                want["X_OTHER"] = "no"          # missing inside the mock
        if "snapshot_env" in names and not capturing:
            want["X_SNAP"] = snap
        for k in want:
            ctx.check(want[k] is env[k] if want[k] is None or env[k] is None else ctx.eq(want[k], env[k]),
                      lambda: "%s is %r instead of %r under %r" % (k, env[k], want[k], names))
        ctx.check(a == ("fake1" if "mock_functions" in names else "real"), lambda: "fa gave %r under %r" % (a, names))
        ctx.check(ctx.eq(b, first_b), lambda: "fb gave %r instead of %r under %r" % (b, first_b, names))
        ctx.check(len(answers) == len([k for k in names if k in ("requests", "httpx")]), "answers")
        for x in answers:
            ctx.check(ctx.eq(x, first_content), lambda: "answer %r instead of %r" % (x, first_content))
        ctx.check(args == (["dependency", "port"] if with_dep else []), lambda: "arguments %r under %r" % (args, names))
        ctx.check(evs == (["in"] if "setup" in names else []), lambda: "set-up %r under %r" % (evs, names))

    def undone():
        ctx.check(environment() == before, lambda: "environment %r instead of %r under %r" % (environment(), before, names))
        ctx.check(me.fa is FA and me.fb is FB, lambda: "functions not restored under %r" % names)
        ctx.check(net.intact(), lambda: "network not restored under %r" % names)
        ctx.check(events == (["in", "out"] if "setup" in names else []), lambda: "set-up and tear-down %r under %r" % (events, names))
        del events[:]
    try:
        with http.Net(respond) as net:
            first_b, first_content = NOW["fb"], content
            rc, text = lib.main(suite, ["-s", "-a", "s/x"])
            ctx.check(len(ran) == 1 and len(seen) == 1, lambda: "the test ran %d times under %r\n%s" % (len(ran), names, text))
            right(True)
            undone()
            executed = [c[0] for c in lib.read_cases("books/.out/cases.txt")]
            ctx.check(executed == (["s/dep", "s/x"] if with_dep else ["s/x"]), lambda: "executed %r" % (executed,))
            good = ending == "value"
            ctx.check((rc == 0) == good, lambda: "exit %r when capturing under %r\n%s" % (rc, names, lib.read("books/.out/s/x.md")))
            if not good:
                ctx.reach("failed")
                return
            # another time: replaying gives the recorded
            sent = len(net.sent)
            calls = CALLED.count("fb")
            if "snapshot_functions" in names:
                NOW["fb"] = "changed"
            if "snapshot_env" in names:
                os.environ["X_SNAP"] = "changed"
            before = environment()
            if "requests" in names or "httpx" in names:
                content = "changed"
            rc, text = lib.main(suite, ["*"])
            ctx.check(len(seen) == 2, lambda: "replay did not run under %r\n%s\n%s" % (names, text, lib.read("books/.out/s/x.md")))
            right(False)
            undone()
            ctx.check(len(net.sent) == sent, "a request was sent while replaying")
            ctx.check(CALLED.count("fb") == calls + (0 if "snapshot_functions" in names else 1), lambda: "fb called while replaying under %r" % names)
            verdicts = {c[0]: c[1] for c in lib.read_cases("books/.out/cases.txt")}
            ctx.check(verdicts.get("s/x") == "OK", lambda: "replay %r under %r: %s" % (verdicts, names, lib.read("books/.out/s/x.txt")))
            executed = [c[0] for c in lib.read_cases("books/.out/cases.txt")]
            ctx.check(executed == (["s/dep", "s/x", "s/after"] if with_dep else ["s/x", "s/after", "s/dep"]), lambda: "executed %r" % (executed,))
            ctx.check(len(got) == 1 and got[0][0] == "value" and ctx.eq(got[0][1], value), lambda: "the dependent got %r" % (got,))
            ctx.reach("replayed")
    finally:
        restore()


def instances(ctx, pool, n, orders):
    """two instances of a class under decorators, the methods depend on others of the same instance"""
    restore()
    got = []
    dec = []
    for k in range(n):
        d = ctx.choice("decorator %d" % k, pool)
        dec.append({"mock_env": bt.mock_env({"X_MOCK": "m%d" % k}), "missing": bt.mock_missing_env({"X_MISSING": "m"}),
                    "mock_functions": bt.mock_functions({FA: fake}), "snapshot_functions": bt.snapshot_functions(FB)}[d])
    where = ctx.choice("where", ["suite", "methods", "both"])
    two = bt.combine_decorators(*dec)
    on = two if where != "suite" else (lambda f: f)
    values = {"p/one": ctx.choice("one", [10, None]), "q/two": 20}

    def test_make(self, t):
        t.tln("make")
        return values[self.test_book_path()]
    make = on(test_make)

    def test_use(self, t, v):
        got.append((self.test_book_path(), v))
        t.tln("use")
        return (v, "used")
    use = on(bt.depends_on(make)(test_use))

    def test_end(self, t, u, p, v):
        got.append((self.test_book_path(), u, p, v))
        t.tln("end")
    end = bt.depends_on(use, bt.port(8080), make)(on(test_end))
    c = book("Book", __name__, [("test_make", make), ("test_use", use), ("test_end", end)])
    objs = [c(x) for x in sorted(values)]
    if ctx.flag("listed backwards"):
        objs.reverse()
    tests = decorate_tests(two, objs) if where != "methods" else bt.merge_tests(objs)
    try:
        for k in range(2):
            sel = ctx.choice("run %d" % k, [["p/one/end"], ["q/two/end"], ["p/one/use", "q/two/end"], ["q"], ["*"]] if k == 0 else [["q/two/end"], ["p/one/end"], ["*"]])
            # now and then the results of the earlier run are used
            fresh = k > 0 and ctx.flag("refresh")
            stored = set() if fresh or k == 0 else ready
            del got[:]
            rc, text = lib.main(tests, ["-s"] + (["-r"] if fresh else []) + sel)
            executed = [r[0] for r in lib.read_cases("books/.out/cases.txt")] if k == 0 else None
            for x in sorted(values):
                made, used, ended = [x + y for y in ("/make", "/use", "/end")]
                want = []
                chosen = [m for m in (made, used, ended) if any([s == "*" or m == s or m.startswith(s + "/") for s in sel])]
                runs_use = used in chosen or ended in chosen and used not in stored
                if runs_use:
                    want.append((x, values[x]))
                if ended in chosen:
                    want.append((x, (values[x], "used"), 8080, values[x]))
                ctx.check([g for g in got if g[0] == x] == want, lambda: "%s received %r instead of %r for %r" % (x, got, want, sel))
                if executed is not None:
                    runs_make = made in chosen or runs_use or ended in chosen
                    names = [m for m, b in ((made, runs_make), (used, runs_use), (ended, ended in chosen)) if b]
                    ctx.check(sorted([m for m in executed if m.startswith(x)]) == sorted(names), lambda: "executed %r instead of %r" % (executed, names))
            ready = set([r[0] for r in lib.read_cases("books/.out/cases.txt") if r[1] != "FAIL"])
            ctx.check("FAIL" not in [r[1] for r in lib.read_cases("books/.out/cases.txt")], lambda: "failed: %s" % text)
            ctx.reach("received")
    finally:
        restore()


ENVS = ["mock_env", "mock_env inner", "missing", "snapshot_env", "setup"]
ALL = ["mock_env", "missing", "snapshot_env", "mock_functions", "snapshot_functions", "requests", "httpx", "setup"]
FORMS = ["function", "method", "async", "async method"]
HARNESSES = [
    Harness("pairs", combined, dict(n=2, pool=ALL, forms=["function", "method"], hows=["stacked"], endings=["value", "raise"], alphabet=TEXT),
            dict(n=3, pool=ALL, forms=["function", "method"], hows=["stacked"], endings=["value", "raise"], alphabet=TEXT),
            bounds="every ordered pair (triple) of eight decorators on functions and methods, depends_on inside or outside", witness=("replayed", "failed")),
    Harness("ways", combined, dict(n=2, pool=["mock_env", "mock_env inner", "snapshot_functions", "httpx"], forms=FORMS, hows=["stacked", "combined", "split", "suite"],
                                   endings=["value"], alphabet=TEXT, deps=(True, False)),
            dict(n=3, pool=["mock_env", "mock_env inner", "snapshot_functions", "httpx", "setup"], forms=FORMS, hows=["stacked", "combined", "split", "suite"],
                 endings=["value", "fail"], alphabet=TEXT, deps=(True, False)),
            bounds="pairs (triples) of four (five) decorators, synchronous or not, stacked, combined and applied to a suite", witness=("replayed",)),
    Harness("nested", combined, dict(n=3, pool=ENVS, forms=["function"], hows=["combined"], endings=["value", "raise", "fail"], alphabet=charset("a"), deps=(False,)),
            dict(n=4, pool=ENVS, forms=["function"], hows=["combined", "stacked"], endings=["value", "raise", "fail"], alphabet=charset("a"), deps=(False,)),
            bounds="every ordered triple (four) of the environment decorators, two of which set the same variable", witness=("replayed", "failed")),
    Harness("instances", instances, dict(n=1, pool=["mock_env", "snapshot_functions"], orders=1),
            dict(n=2, pool=["mock_env", "missing", "mock_functions", "snapshot_functions"], orders=1),
            bounds="two instances of a class with a chain of three methods, in two orders, decorated as a suite, by method or both, two runs",
            witness=("received",)),
    Harness("alone", combined, dict(n=1, pool=ALL, forms=FORMS, hows=["stacked", "suite"], endings=["value", "fail"], alphabet=TEXT, deps=(True, False)),
            bounds="each of eight decorators alone, on every form of test and on suites", witness=("replayed", "failed")),
]
