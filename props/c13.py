"""C13 A dependent test receives exactly its dependencies' results"""
from sx.ctx import Harness
from props import lib, large
import booktest as bt
from booktest.cache import LruCache, NoCache

ASSUMPTIONS = ["results are picklable"]

VALUES = [1, 0, "", [], False, "text", {"k": [1.5, None]}, (1, 2), b"\x00"]


def new_cache(ctx, kind):
    if kind == "dict":
        return {}
    if kind == "none":
        return NoCache()
    return LruCache(kind)


def same(a, b):
    return type(a) is type(b) and a == b


def histories(ctx, steps, values, caches, asyncs, ends, decls, later, asking=False):
    """several runs, in one process or in new ones; producers return other values and end differently each time"""
    cache_kind = ctx.choice("cache", caches)
    producers = ["a", "d/b"]
    is_async = asyncs and ctx.flag("async")
    stored = {}
    now = {}
    got = []
    told = []

    def producer(name):
        def body(t):
            told.clear()
            behave, value = now[name]
            t.tln("line" if behave != "DIFF" else "other")
            if behave == "FAIL":
                t.fail().tln("bad")
            if behave == "raise":
                raise ValueError("boom")
            return value
        if is_async:
            async def f(t):
                return body(t)
        else:
            def f(t):
                return body(t)
        return f
    fa, fb = producer("a"), producer("d/b")
    res = bt.Resource("the port", "id")
    decl = ctx.choice("declared", decls)
    what = {"a": fa, "b": fb, "r": res}

    def body(t, values):
        told.clear()
        got.append(list(values))
        t.tln("c")
        return "c"
    if is_async:
        async def fc(t, *vs):
            return body(t, vs)
    else:
        def fc(t, *vs):
            return body(t, vs)
    fc = bt.depends_on(*[what[x] for x in decl])(fc)
    for n in producers:
        lib.write("books/%s.md" % n, "line\n")
    tests = bt.Tests([["a", fa], ["d/b", fb], ["c", fc]])
    cache = new_cache(ctx, cache_kind)
    c_accepted = False
    for k in range(steps):
        if k > 0 and ctx.flag("new process %d" % k):
            cache = new_cache(ctx, cache_kind)
        sel = ctx.choice("run%d" % k, [["a", "d/b", "c"], ["a"], ["c"], ["a", "c"]] if k > 0 else [["a", "d/b", "c"], ["a", "d/b"], ["a", "c"]])
        for n in producers:
            if n in sel:
                behave = ctx.choice("%s behaves %d" % (n, k), ends if n == "a" else ["OK", "FAIL"])
                value = ctx.choice("%s value %d" % (n, k), (values if k == 0 else later) if n == "a" else values[:1]) if behave in ("OK", "DIFF") else "wrong"
                now[n] = (behave, value)
        got.clear()
        config = {}
        stop = None
        if asking and ctx.flag("ask %d" % k):
            config["interactive"] = True
            # the user gives up at the first difference, or accepts or continues at each
            answer = ctx.choice("answer %d" % k, ["q", "c", "a"])
            stop = answer == "q"
            def reply(prompt):
                # the acceptance of a failure is not taken: the question comes again
                told.append(prompt)
                return answer if len(told) == 1 else "c"
            ctx.env.input_hook = reply
        if asking and not stop and ctx.flag("fail fast %d" % k):
            config["fail_fast"] = True
            stop = True
        accepts = "interactive" in config and answer == "a"
        r = lib.run(tests, config, sel, cache)
        stopped = False
        for n in [x for x in producers if x in sel]:
            if not stopped:
                behave, value = now[n]
                verdict = "OK" if behave == "DIFF" and accepts else "FAIL" if behave == "raise" else behave
                ctx.check(r.of(n) == verdict, lambda: "%s is %s" % (n, r.of(n)))
                if behave == "DIFF" and accepts:
                    lib.write("books/%s.md" % n, "line\n")
                if behave in ("OK", "DIFF"):
                    stored[n] = value
                # an accepted difference does not end the run
                stopped = stop and verdict != "OK"
        if stopped:
            ctx.reach("stopped")
            ctx.check(got == [] and (k > 0 or r.of("c") == []), "a case ran after the end of the run")
            continue
        if "c" in sel:
            need = {"a": "a", "b": "d/b"}
            missing = [x for x in decl if x != "r" and need[x] not in stored]
            if missing:
                ctx.reach("missing")
                ctx.check(r.of("c") == "FAIL" and got == [], lambda: "%s with %r, nothing stored for %r" % (r.of("c"), got, missing))
            else:
                want = ["the port" if x == "r" else stored[need[x]] for x in decl]
                ctx.reach("delivered")
                if None in want:
                    ctx.reach("nothing returned")
                ctx.check(len(got) == 1 and len(got[0]) == len(want) and all([same(x, y) for x, y in zip(got[0], want)]),
                          lambda: "received %r instead of %r, cache %r, step %d" % (got, want, cache_kind, k))
                ctx.check(r.of("c") == ("OK" if accepts or c_accepted else "DIFF"), lambda: "c is %s" % r.of("c"))
                c_accepted = c_accepted or accepts


def instances(ctx, caches, npaths):
    """two instances of a class, an inheriting class and a function depending on methods"""
    got = []
    ten = ctx.choice("value of one", [10, None])

    class Base(bt.TestBook):
        def __init__(self, path, value):
            super().__init__(path)
            self.value = value

        def test_make(self, t):
            t.tln("make")
            return self.value

        @bt.depends_on(test_make)
        def test_use(self, t, v):
            got.append((self.test_book_path() + "/use", v))
            t.tln("use")
            return (v, "used")

        @bt.depends_on(bt.port(8080), test_use, test_make)
        def test_both(self, t, p, u, v):
            got.append((self.test_book_path() + "/both", p, u, v))
            t.tln("both")

    class Other(Base):
        @bt.depends_on(Base.test_make)
        def test_other(self, t, v):
            got.append((self.test_book_path() + "/other", v))
            t.tln("other")

    @bt.depends_on(Base.test_make)
    def fun(t, v):
        got.append(("fun", v))
        t.tln("fun")
    order = ctx.choice("order", [0, 1, 2])
    one, two, other = [lambda: Base("p/one", ten), lambda: Base("q/two", 20), lambda: Other("r", 30)], None, None
    objs = {}
    for i in [[0, 1, 2], [2, 1, 0], [1, 2, 0]][order]:
        objs[i] = [lambda: Base("p/one", ten), lambda: Base("q/two", 20), lambda: Other("r", 30)][i]()
    listed = [objs[i] for i in [[0, 1, 2], [2, 1, 0], [1, 2, 0]][ctx.pick("listed", 3)]]
    deco = ctx.flag("decorated")
    from booktest.testsuite import decorate_tests
    suite = listed + [bt.Tests([["fun", fun]])]
    tests = decorate_tests(bt.mock_env({"SOME_NAME": "x"}), suite) if deco else bt.merge_tests(suite)
    names = ["p/one/make", "p/one/use", "p/one/both", "q/two/make", "q/two/use", "q/two/both", "r/other", "fun"]
    ctx.check(sorted(tests.all_names()) == sorted(names), lambda: "cases %r" % tests.all_names())
    cache_kind = ctx.choice("cache", caches)
    first = ctx.choice("first", [["p/one/make"], ["q/two/make"], ["p/one/make", "q/two/make"], ["q/two/use"]])
    lib.main(tests, first, cache=new_cache(ctx, cache_kind))
    got.clear()
    sel = ctx.choice("then", [["p/one/use"], ["q/two/use"], ["q/two/both"], ["r/other"], ["fun"], ["p/one/both", "q"], ["*"]])
    rc, text = lib.main(tests, sel, cache=new_cache(ctx, cache_kind))
    recs = dict([(c[0], c[1]) for c in lib.read_cases("books/.out/cases.txt")])
    ctx.check("FAIL" not in recs.values(), lambda: "failed: %r\n%s" % (recs, text))
    value = {"p/one": ten, "q/two": 20}
    ctx.reach("called" if got else "not called")
    for g in got:
        where, what = g[0].rsplit("/", 1) if "/" in g[0] else ("", g[0])
        if what == "use":
            want = [value[where]]
        elif what == "both":
            want = [8080, (value[where], "used"), value[where]]
        else:
            # any instance that has the test
            ctx.check(len(g) == 2 and g[1] in (ten, 20), lambda: "%s received %r" % (g[0], g[1:]))
            continue
        ctx.check(list(g[1:]) == want, lambda: "%s received %r instead of %r" % (g[0], g[1:], want))
    called = [g[0] for g in got]
    for s in sel:
        for n in names:
            if not n.endswith("make") and (s == "*" or n == s or n.startswith(s + "/")):
                ctx.check(called.count(n) == 1, lambda: "%s called %d times" % (n, called.count(n)))


class Box:
    def __init__(self, items):
        self.items = items


def shared(ctx, caches, runs):
    """tests that change what they receive, before others use the same result"""
    kind = ctx.choice("value", ["list", "dict", "box", "nested"])
    cache = new_cache(ctx, ctx.choice("cache", caches))
    users = [ctx.flag("changes %d" % i) for i in range(2)]
    alone = ctx.choice("runs", runs)
    got = []

    def value():
        return {"list": [1, "a"], "dict": {"k": 1}, "box": Box([1]), "nested": [[1], {"a": []}]}[kind]

    def told(v):
        return repr(v.items if kind == "box" else v)

    def spoil(v):
        {"list": lambda: v.append(2), "dict": lambda: v.update(z=1), "box": lambda: v.items.append(2), "nested": lambda: v[1]["a"].append(0)}[kind]()

    def maker(t):
        t.tln("m")
        return value()

    def mk(i):
        def f(t, v):
            got.append((i, told(v)))
            if users[i]:
                spoil(v)
            t.tln("%d" % i)
        return bt.depends_on(maker)(f)
    cases = [("m", maker), ("u0", mk(0)), ("u1", mk(1))]
    names = [c[0] for c in cases]
    changed = False
    for part in {"one": [names], "each": [[n] for n in names], "users again": [names, names[1:]]}[alone]:
        # every run is a process of its own, or shares the memory
        if alone == "each":
            cache = new_cache(ctx, "none") if isinstance(cache, NoCache) else type(cache)() if isinstance(cache, dict) else LruCache(8)
        del got[:]
        r = lib.run(cases, {"accept": True}, selected=part, cache=cache)
        for i, v in got:
            # within a process the cache gives everyone the same object
            ctx.check(v == told(value()), lambda: "test %d received %s instead of %s" % (i, v, told(value())),
                      finding="C13-shared" if changed and not isinstance(cache, NoCache) and alone != "each" else None)
            changed = changed or users[i]
        ctx.check(all(c[1] == "OK" for c in r.cases), lambda: "%r" % (r.cases,))
    ctx.reach("changed" if changed else "as it was")


HARNESSES = [
    Harness("histories", histories, dict(steps=2, values=[1], later=[2, None], caches=["dict", "none", 0, 1, 8], asyncs=False,
                                         ends=["OK", "DIFF", "FAIL", "raise"], decls=["rab", "arb"]),
            dict(steps=3, values=[1], later=[2, None], caches=["dict", "none", 1], asyncs=False,
                 ends=["OK", "DIFF", "FAIL"], decls=["arb"]),
            bounds="2 (3) runs, every verdict of the producers, dictionary, no cache and bounded caches of 0, 1, 8",
            witness=("delivered", "missing", "nothing returned")),
    Harness("endings", histories, dict(steps=2, values=[1], later=[2], caches=["dict", "none"], asyncs=False,
                                       ends=["OK", "DIFF", "FAIL"], decls=["ab"], asking=True),
            dict(steps=2, values=[1], later=[2], caches=["dict", "none", 1], asyncs=False, ends=["OK", "DIFF", "FAIL", "raise"],
                 decls=["ab", "arb"], asking=True),
            bounds="2 runs that ask the user, who continues, accepts or gives up, or that stop at the first failure",
            witness=("delivered", "missing", "stopped")),
    Harness("values", histories, dict(steps=2, values=VALUES, later=[7], caches=["dict", "none", 1], asyncs=True,
                                      ends=["DIFF", "FAIL"], decls=["ba"]),
            dict(steps=2, values=VALUES, later=[0, ""], caches=["dict", "none", 0, 1, 8], asyncs=True, ends=["DIFF", "OK"],
                 decls=["ab", "rab"]),
            bounds="2 runs, nine values of all types, also empty ones, plain and async tests", witness=("delivered", "missing")),
    Harness("instances", instances, dict(caches=["dict", "none", 1], npaths=2), dict(caches=["dict", "none", 0, 1, 2, 8], npaths=2),
            bounds="three instances of two classes in 3 creation and 3 listing orders, plain or decorated suite, two runs",
            witness=("called",)),
    Harness("long chain", large.chain, dict(n=30, what="value"),
            dict(n=100, what="value"),
            bounds="a chain of 30 tests, each using the result of the one before", timeout=120, witness=("done",)),
    Harness("many dependencies", large.wide, dict(n=30),
            dict(n=100),
            bounds="a test using the results of 30 others", timeout=120, witness=("done",)),
    Harness("shared", shared, dict(caches=["dict", "none", 1, 8], runs=["one", "each", "users again"]),
            bounds="two users of one result, either of which changes it after receiving it, in one run, in a process each, or in two runs",
            witness=("changed", "as it was")),
]
