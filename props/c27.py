"""C27 Every detected test function and method becomes its own case"""
import importlib, os, sys, types
from sx.ctx import Harness
from sx.core import charset
from props import lib, large
from sx.listing import Order
import booktest as bt
from booktest.testbook import OrderedClass, member_table
from booktest.testsuite import decorate_tests
from booktest import detection

ASSUMPTIONS = ["a module's functions, classes and suites are its own (not imported from elsewhere) and have distinct names",
               "functions of a file come in the order of their names, methods of a class in the order of their definition",
               "what Python's import does is not encoded: modules with symbolic names are put in its table of modules, "
               "and modules with concrete names are really imported"]
LETTERS = charset("abT_1")


def module(name):
    m = types.ModuleType(name)
    sys.modules[name] = m
    return m


def function(name, mod, nargs=1, log=None):
    if nargs == 0:
        def f():
            return None
    elif nargs == 1:
        def f(t):
            if log is not None:
                log.append(f)
            t.tln("x")
    else:
        def f(t, other):
            return None
    f.__name__ = f.__qualname__ = name
    f.__module__ = mod
    return f


def detect(path):
    importlib.invalidate_caches()
    detection.include_sys_path()
    return detection.detect_tests(path)


def gone(mods):
    for m in mods:
        sys.modules.pop(m, None)


def strip_prefix(name):
    """the name of the case, or None if the function is no test"""
    return name[5:] if name.startswith("test_") else None


def functions(ctx, n, chars, prefixes, roots, letters=LETTERS):
    """functions with any names in a module"""
    root = ctx.choice("root", roots)
    m = module(root.replace("/", ".") + ".foo_test")
    try:
        lib.write(root + "/foo_test.py", "")
        have = {}
        for i in range(n):
            name = ctx.choice("prefix%d" % i, prefixes) + ctx.text("name%d" % i, (1, chars), letters)
            for o in have:
                ctx.assume(not ctx.eq(o, name) if len(o) == len(name) else True)
            kind = ctx.choice("kind%d" % i, ["function", "value", "two"])
            v = {"function": function(name, m.__name__), "value": "x", "two": function(name, m.__name__, 2)}[kind]
            setattr(m, name, v)
            have[name] = (kind, v)
        tests = bt.merge_tests(detect(root))
        want = []
        for name, (kind, v) in have.items():
            t = strip_prefix(name)
            if t is not None and kind != "value":
                want.append((root + "/foo/" + t, v))
        got = tests.cases
        ctx.check(len(got) == len(want), lambda: "cases %r instead of %r" % (got, want))
        for w, v in want:
            ctx.check(ctx.any([ctx.all([ctx.eq(g[0], w), g[1] is v]) for g in got]), lambda: "cases %r instead of %r" % (got, want))
        ctx.reach("some" if want else "none")
    finally:
        gone([m.__name__])


def marked(name):
    """a file's or class's name in small letters without the mark of tests and books at its end"""
    name = name.lower()
    for mark in ("book", "test"):
        if name.endswith(mark):
            name = name[:-4]
            if name.endswith("_"):
                name = name[:-1]
            elif mark == "book" and name == "test":
                return ""
            if mark == "book" and name.endswith("test"):
                name = name[:-4]
                if name.endswith("_"):
                    name = name[:-1]
            break
    return name


def snake(name):
    out, before = "", False
    for c in name:
        up = "A" <= c <= "Z"
        out += ("_" if up and before else "") + c.lower()
        before = not up
    return out


def class_names(ctx, chars, files, ends, alphabet):
    """the place of a class's cases"""
    f = ctx.choice("file", files)
    dotted = "t." + f
    m = module(dotted)
    try:
        lib.write("t/%s.py" % f, "")
        name = ctx.text("class", (1, chars), alphabet) + ctx.choice("end", ends)

        def g(self, t):
            pass
        g.__name__ = g.__qualname__ = "test_x"
        setattr(m, "inst", None)
        c = book(name, dotted, [("test_x", g)])
        m.Found = c
        tests = bt.merge_tests(detect("t"))
        part, cpart = marked(f), marked(snake(name))
        want = "t/" + part + ("" if cpart.replace("_", "") == part.replace("_", "") else "/" + cpart) + "/x"
        ctx.check(len(tests.cases) == 1 and ctx.eq(tests.cases[0][0], want), lambda: "cases %r instead of %r" % (tests.cases, want))
        ctx.reach("same" if want == "t/" + part + "/x" else "other")
    finally:
        gone([dotted])


def filenames(ctx, chars, ends, starts, dirs):
    """which files are searched, by any name"""
    stem = ctx.text("stem", (1, chars), charset("ab_t"))
    end = ctx.choice("end", ends)
    start = ctx.choice("start", starts)
    d = ctx.choice("directory", dirs)
    name = start + stem + end
    dotted = d.replace("/", ".") + "." + name[:len(name) - 3]
    is_test = name.endswith("_test.py") or name.endswith("_book.py") or name.endswith("_suite.py") or name.startswith("test_") and name.endswith(".py")
    m = module(dotted)
    try:
        m.test_one = function("test_one", dotted)
        lib.write(d + "/" + name, "")
        lib.write(d + "/other.txt", "")
        tests = bt.merge_tests(detect(d.split("/")[0]))
        got = tests.cases
        if not is_test:
            ctx.reach("other")
            ctx.check(got == [], lambda: "cases %r of %r" % (got, name))
            return
        ctx.reach("test")
        ctx.check(len(got) == 1 and got[0][1] is m.test_one, lambda: "cases %r of %r" % (got, name))
        # under the file's path
        ctx.check(got[0][0].startswith(d + "/") and got[0][0].endswith("/one"), lambda: "case %r of %r" % (got[0][0], name))
        part = marked(name[:-3])
        want = d + ("/" + part if part else "") + "/one"
        ctx.check(ctx.eq(got[0][0], want), lambda: "case %r of %r instead of %r" % (got[0][0], name, want))
    finally:
        gone([dotted])


def book(name, mod, methods, bases=None):
    d = member_table()
    for k, v in methods:
        d[k] = v
    d["__module__"] = mod
    c = OrderedClass(name, bases or (bt.TestBook,), d)
    return c


def classes(ctx, n, chars, prefixes, cnames):
    """methods with any names in a class"""
    m = module("t.foo_book")
    try:
        lib.write("t/foo_book.py", "")
        methods = []
        for i in range(n):
            name = ctx.choice("prefix%d" % i, prefixes) + ctx.text("name%d" % i, (1, chars), LETTERS)
            for o, _ in methods:
                ctx.assume(not ctx.eq(o, name) if len(o) == len(name) else True)

            def f(self, t):
                pass
            f.__name__ = f.__qualname__ = name
            methods.append((name, f))
        cname, path = ctx.choice("class", cnames)
        defined = list(methods)
        if ctx.flag("redefined"):
            # the later definition counts
            def g(self, t):
                pass
            g.__name__ = g.__qualname__ = methods[0][0]
            defined.append((methods[0][0], g))
            methods[0] = (methods[0][0], g)
        c = book(cname, "t.foo_book", defined)
        setattr(m, cname, c)
        how = ctx.choice("how", ["class", "instance", "needs arguments"])
        if how == "instance":
            delattr(m, cname)
            m.inst = c(full_path="given/path")
            path = "given/path"
        elif how == "needs arguments":
            delattr(m, cname)

            class Needs(c):
                def __init__(self, x):
                    super().__init__("never")
            m.Needs = Needs
        tests = bt.merge_tests(detect("t"))
        got = tests.cases
        want = [] if how == "needs arguments" else [(path + "/" + strip_prefix(k), f) for k, f in methods if strip_prefix(k) is not None]
        ctx.check(len(got) == len(want), lambda: "cases %r instead of %r" % (got, want))
        for (g, gm), (w, wm) in zip(got, want):
            ctx.check(ctx.eq(g, w), lambda: "case %r instead of %r in %r" % (g, w, got))
            ctx.check(gm.__func__ is wm, lambda: "case %r has another method" % g)
        ctx.reach("some" if want else "none")
    finally:
        gone(["t.foo_book"])


SOURCES = {
    "functions": ("def test_b(t):\n    t.tln('b')\ndef test_a(t):\n    t.tln('a')\ndef helper(t):\n    pass\nasync def test_c(t):\n    t.tln('c')\n", ["a", "b", "c"]),
    "class": ("class {C}Book(bt.TestBook):\n    def test_z(self, t):\n        t.tln('z')\n    def help(self):\n        pass\n    def test_y(self, t):\n        t.tln('y')\n", ["{c}z", "{c}y"]),
    "suite": ("def f(t):\n    t.tln('f')\ndef g(t):\n    t.tln('g')\nsuite = bt.TestSuite('own/{n}', [['g', g], ['f', f]])\n", ["/own/{n}/g", "/own/{n}/f"]),
    "depends": ("def test_d(t):\n    t.tln('d')\n    return 1\n@bt.depends_on(test_d)\ndef test_e(t, d):\n    t.tln(str(d))\n", ["d", "e"]),
    "decorated": ("@bt.mock_env({{'BTV_X': '1'}})\ndef test_k(t):\n    t.tln('k')\n", ["k"]),
    "empty": ("", []),
}


def real(ctx, files, kinds):
    """real files in directories, searched, merged, decorated and run"""
    k = 0
    order = []
    for f in files:
        kind = ctx.choice(f, [None] + kinds)
        if kind is None:
            continue
        k += 1
        src, names = SOURCES[kind]
        n = "n%d" % k
        lib.write("proj%d/%s" % (NUMBER[0], f), "import booktest as bt\n" + src.format(n=n, C="Some%d" % k, c=""))
        order.append((f, kind, n))
    lib.write("proj%d/__pycache__/x.txt" % NUMBER[0], "")
    root = "proj%d" % NUMBER[0]
    NUMBER[0] += 1
    stems = {"a_test.py": "a", "sub/b_book.py": "sub/b", "test_c.py": "test_c", "sub/deep/d_suite.py": "sub/deep/d_suite"}
    want = []
    for f, kind, n in order:
        c = "some%d/" % (int(n[1:]))
        for x in SOURCES[kind][1]:
            x = x.format(n=n, c=c)
            want.append(x[1:] if x.startswith("/") else root + "/" + stems[f] + "/" + x)
    # by command line arguments of the tool
    parts = detect(root)
    tests = bt.merge_tests(parts)
    got = [c[0] for c in tests.cases]
    ctx.check(sorted(got) == sorted(want), lambda: "cases %r instead of %r" % (got, want))
    for f, kind, n in order:
        mine = [x for x in want if x in got and (x.startswith(root + "/" + stems[f] + "/") or x.startswith("own/" + n + "/"))]
        ctx.check([x for x in got if x in mine] == mine, lambda: "order %r instead of %r" % ([x for x in got if x in mine], mine))
    # decorating
    called = []

    def deco(f):
        import functools

        @functools.wraps(f)
        async def w(*a, **k):
            called.append(1)
            from booktest.coroutines import maybe_async_call
            return await maybe_async_call(f, a, k)
        w._original_function = f
        return w
    way = ctx.choice("way", ["plain", "decorated", "drop prefix"])
    if way == "decorated":
        tests = decorate_tests(deco, parts)
        ctx.check([c[0] for c in tests.cases] == got, "decorating changed the cases")
    elif way == "drop prefix":
        # cases elsewhere are not part of it
        tests = bt.drop_prefix(ctx.choice("prefix", [root, root + "/"]), tests)
        got = [g[len(root) + 1:] for g in got if g.startswith(root + "/")]
        ctx.check([c[0] for c in tests.cases] == got, lambda: "dropping the prefix made %r" % (tests.cases,))
    if not got:
        return
    rc, text = lib.main(tests, ["-r", "*"])
    cases = lib.read_cases("books/.out/cases.txt")
    ctx.check(sorted(c[0] for c in cases) == sorted(got), lambda: "executed %r of %r" % (cases, got))
    ctx.check(all(c[1] == "DIFF" for c in cases), lambda: "verdicts %r" % (cases,))
    for g in got:
        t = lib.read("books/.out/%s.md" % g)
        w = {"e": "1"}.get(g.split("/")[-1], g.split("/")[-1])
        ctx.check(t == w + "\n", lambda: "%s ran another function: %r" % (g, t))
    ctx.check(len(called) == (len(got) if way == "decorated" else 0), "decorator calls")
    ctx.reach("ran")


NUMBER = [0]


def listing(ctx, trees):
    """the cases, their order and the process set-up are the same, however the file system lists directories"""
    tree = ctx.choice("tree", trees)
    root = "list%d" % trees.index(tree)
    mods, runs = [], []

    def setup(n):
        def process_setup_teardown():
            runs.append(n)
            yield
        return process_setup_teardown
    try:
        for k, f in enumerate(tree):
            p = root + "/" + f
            lib.write(p, "")
            m = module(p[:-3].replace("/", "."))
            mods.append(m.__name__)
            m.process_setup_teardown = setup(k)
            if not f.endswith("__booktest__.py"):
                m.test_two = function("test_two", m.__name__)
                m.test_one = function("test_one", m.__name__)
        seen = []
        for tag in ("first", "second"):
            with Order(ctx, tag):
                tests = bt.merge_tests(detect(root))
                s = detection.detect_setup(root)
                if s is not None:
                    with s.setup_teardown():
                        pass
            seen.append(([c[0] for c in tests.cases], list(runs)))
            del runs[:]
        ctx.check(seen[0] == seen[1], lambda: "another order of the files makes %r of %r" % (seen[1], seen[0]))
        n = len([f for f in tree if not f.endswith("__booktest__.py")])
        ctx.check(len(set(seen[0][0])) == 2 * n, lambda: "cases %r of %r" % (seen[0], tree))
        ctx.reach("same")
    finally:
        gone(mods)


def algebra(ctx, n, chars, alphabet):
    """merging, dropping a prefix and suites on any names"""
    def mk(i):
        def f(t):
            pass
        return f
    suites = []
    flat = []
    for i in range(n):
        name = ctx.text("name%d" % i, (1, chars), alphabet)
        ctx.assume(name[0] != "/")
        for o, _ in flat:
            ctx.assume(not ctx.eq(o, name) if len(o) == len(name) else True)
        f = mk(i)
        flat.append((name, f))
    cut = ctx.pick("cut", n + 1)
    a, b = bt.Tests([list(x) for x in flat[:cut]]), bt.Tests([list(x) for x in flat[cut:]])
    how = ctx.choice("nesting", ["list", "nested", "suites"])
    prefix = ""
    if how == "list":
        m = bt.merge_tests([a, b])
    elif how == "nested":
        m = bt.merge_tests([[a], [[b]], []])
    else:
        prefix = "s/"
        m = bt.merge_tests([bt.TestSuite("s", [list(x) for x in flat])])
    got = [tuple(c) for c in m.cases]
    ctx.check(len(got) == n, "cases lost or added by merging")
    for (g, gf), (w, wf) in zip(got, flat):
        ctx.check(ctx.all([ctx.eq(g, prefix + w), gf is wf]), lambda: "merged %r of %r" % (got, flat))
    p = ctx.text("prefix", (1, 2), alphabet)
    ctx.assume(not (p == "/"))
    dropped = bt.drop_prefix(p, bt.Tests([list(x) for x in flat]))
    full = p if p.endswith("/") else p + "/"
    want = [(w[len(full):], f) for w, f in flat if w.startswith(full)]
    got = [tuple(c) for c in dropped.cases]
    ctx.check(len(got) == len(want), lambda: "dropping %r of %r gives %r" % (p, flat, got))
    for (g, gf), (w, wf) in zip(got, want):
        ctx.check(ctx.all([ctx.eq(g, w), gf is wf]), lambda: "dropping %r of %r gives %r" % (p, flat, got))
    d = decorate_tests(lambda f: ("decorated", f), [bt.Tests([list(x) for x in flat])])
    got = [tuple(c) for c in d.cases]
    ctx.check(len(got) == n, "decorating lost cases")
    for (g, gf), (w, wf) in zip(got, flat):
        ctx.check(ctx.all([ctx.eq(g, w), gf == ("decorated", wf)]), lambda: "decorated %r of %r" % (got, flat))
    ctx.reach("done")


HARNESSES = [
    Harness("functions", functions, dict(n=2, chars=2, prefixes=["test_", ""], roots=["t"], letters=charset("aT_")), dict(n=2, chars=3, prefixes=["test_", "", "test"], roots=["t", "t/u"]),
            bounds="two members with any names of up to two (three) characters after a prefix", witness=("some", "none")),
    Harness("prefix", functions, dict(n=1, chars=4, prefixes=["te", "Te"], roots=["t"], letters=charset("st_a")), bounds="one member with any name close to the prefix of tests", witness=("some", "none")),
    Harness("filenames", filenames, dict(chars=2, ends=["_test.py", "_book.py", "_suite.py", ".py", "test.py", "_test.txt"], starts=["", "test_", "test", "a_test_", "b_book_"], dirs=["t", "t/u"]),
            dict(chars=3, ends=["_test.py", "_book.py", "_suite.py", ".py", "test.py", "_test.txt", "_testbook.py", "_test.py.py"], starts=["", "test_", "test", "a_test_", "b_book_"], dirs=["t", "t/u"]),
            bounds="any stem of up to two (three) characters with starts and ends", witness=("test", "other")),
    Harness("class names", class_names, dict(chars=3, files=["a_book", "ab_test_test"], ends=["", "Book", "TestBook"], alphabet=charset("aAbB_1")),
            dict(chars=4, files=["a_book", "ab_test_test", "a_b_testbook"], ends=["", "Book", "TestBook", "Test", "_Test_Book"], alphabet=charset("aAbBtT_1")),
            bounds="any class name of up to three (four) characters and an ending", witness=("same", "other")),
    Harness("classes", classes, dict(n=2, chars=2, prefixes=["test_", ""], cnames=[("FooBook", "t/foo"), ("BarTestBook", "t/foo/bar")]),
            dict(n=3, chars=2, prefixes=["test_", ""], cnames=[("FooBook", "t/foo"), ("BarTestBook", "t/foo/bar")]),
            bounds="two (three) methods with any names, of a class, an instance, or a class that needs arguments", witness=("some", "none")),
    Harness("real", real, dict(files=["a_test.py", "sub/b_book.py"], kinds=["functions", "class", "suite", "depends", "decorated", "empty"]),
            dict(files=["a_test.py", "sub/b_book.py", "test_c.py"], kinds=["functions", "class", "suite", "depends"]),
            bounds="two (three) imported files of any kinds, decorated and with a dropped prefix", witness=("ran",)),
    Harness("listing", listing, dict(trees=[("b_test.py", "a_book.py"), ("b/c_test.py", "a/c_test.py", "d_suite.py"), ("b/__booktest__.py", "a/__booktest__.py", "a/c_test.py")]),
            dict(trees=[("b_test.py", "a_book.py", "c_test.py"), ("b/c_test.py", "a/c_test.py", "d_suite.py", "a/d/e_test.py"), ("b/__booktest__.py", "a/__booktest__.py", "a/c_test.py", "__booktest__.py"), ("a_test.py", "a/b_test.py", "b/b_test.py")]),
            bounds="two listings of three (four) trees of up to four files, every directory in any order", witness=("same",)),
    Harness("algebra", algebra, dict(n=2, chars=3, alphabet=charset("ab/")), dict(n=3, chars=3, alphabet=charset("ab/")),
            bounds="two (three) cases with any names of up to three characters", witness=("done",)),
    Harness("deep names", algebra, dict(n=1, chars=5, alphabet=charset("a/")), dict(n=1, chars=7, alphabet=charset("ab/")),
            bounds="a case with any name of up to five (seven) characters in which a prefix may repeat", witness=("done",)),
    Harness("many", large.detected, dict(n=40),
            dict(n=200),
            bounds="40 functions or methods in any of three orders, or 40 files", timeout=120, witness=("functions", "methods", "files")),
]
