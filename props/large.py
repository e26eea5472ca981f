"""Large inputs: much more of everything than the other harnesses have, with a few symbolic places in it.
Used by many properties: what holds for a few has to hold for many, long and deep, too."""
import os
from props import lib
from sx.core import charset
import booktest as bt

SOME = charset("a1 .")


def page(n, width):
    """n different lines of about the given width: words, numbers, signs"""
    out = []
    for i in range(n):
        l = "line %d" % i
        k = 0
        while len(l) < width:
            l += (" word", " 12.5", " -3,", " (x%d)" % i, " é")[k % 5]
            k += 1
        out.append(l[:width] if width else l)
    return out


def at(l, col, c):
    col = {"start": 0, "middle": len(l) // 2, "end": len(l) - 1}[col]
    return l[:col] + c + l[col + 1:]


def lines(ctx, sizes, what):
    """a long page with one changed place"""
    n, width = ctx.choice("size", sizes)
    row = ctx.choice("line", [0, n // 2, n - 1])
    col = ctx.choice("column", ["start", "middle", "end"] if width > 20 else ["end"])
    old, new = ctx.char("old", SOME), ctx.char("new", SOME)
    a, b = page(n, width), page(n, width)
    a[row], b[row] = at(a[row], col, old), at(b[row], col, new)
    snap, out = "\n".join(a) + "\n", "\n".join(b) + "\n"
    how = ctx.choice("how", ["t", "tln"] if width > 20 else ["t"])

    def test(t):
        if how == "t":
            t.t(out)
        else:
            for l in b:
                t.tln(l)
    lib.write("books/x.md", snap)
    same = ctx.eq(old, new)
    r = lib.run([("x", test)])
    if what == "verdict":
        v = r.of("x")
        ctx.check((v == "OK") if same else (v == "DIFF"), lambda: "%s, %r for %r in line %d, %s" % (v, new, old, row, col))
    elif what == "output":
        ctx.check(ctx.eq(lib.read("books/.out/x.md"), out), "another output")
    else:
        r = lib.run([("x", test)], {"accept": True})
        ctx.check(ctx.eq(lib.read("books/x.md"), out), "another snapshot")
        r = lib.run([("x", test)])
        ctx.check(r.of("x") == "OK", lambda: "%s after acceptance" % r.of("x"))
    ctx.reach("same" if same else "different")


def untested(ctx, sizes):
    """many untested lines, changed in any place"""
    n, width = ctx.choice("size", sizes)
    row = ctx.choice("line", [0, n // 2, n - 1])
    new = ctx.char("new", SOME)
    a = page(n, width)
    lib.write("books/x.md", "\n".join(a) + "\nend\n")
    b = page(n, width)
    b[row] = at(b[row], "middle", new)

    def test(t):
        for l in b:
            t.iln(l)
        t.tln("end")
    r = lib.run([("x", test)])
    ctx.check(r.of("x") == "OK", lambda: "%s for a change of an untested line" % r.of("x"))
    ctx.reach("done")


def failing(ctx, n):
    """one failed line, or many, in a long page that is as its snapshot"""
    a = page(n, 30)
    lib.write("books/x.md", "\n".join(a) + "\n")
    which = ctx.choice("lines", [[0], [n // 2], [n - 1], list(range(n))])
    diff = ctx.choice("differs", [None, 0, n - 1])

    def test(t):
        for i, l in enumerate(a):
            if i in which:
                t.fail()
            t.tln(l + "~" if diff == i else l)
    r = lib.run([("x", test)])
    ctx.check(r.of("x") == "FAIL", lambda: "%s with failed lines %r" % (r.of("x"), which[:3]))
    ctx.reach("done")


def sections(ctx, n, shifts):
    """a book of many sections, written in another order, with one changed place"""
    k = ctx.choice("shift", shifts)
    row = ctx.choice("section", [0, 1, n // 2, n - 1])
    old, new = ctx.char("old", SOME), ctx.char("new", SOME)
    level = ctx.choice("level", [1, 3])

    def text(c):
        return [("section %d" % i, ["first of %d" % i, "value %d%s" % (i, c if i == row else "")]) for i in range(n)]

    def test(t):
        for h, ls in now[0]:
            getattr(t, "h%d" % level)(h)
            for l in ls:
                t.tln(l)
    now = [text(old)]
    lib.run([("x", test)], {"accept": True})
    s = text(new)
    now[0] = s[k:] + s[:k]
    r = lib.run([("x", test)])
    same = ctx.eq(old, new)
    ctx.check((r.of("x") == "OK") if same else (r.of("x") == "DIFF"), lambda: "%s, %r for %r in section %d" % (r.of("x"), new, old, row))
    ctx.reach("same" if same else "different")


def sets(ctx, n):
    """a set of many items in another order, with one changed item"""
    old, new = ctx.char("old", SOME), ctx.char("new", SOME)
    row = ctx.choice("item", [0, n // 2, n - 1])

    def items(c):
        return ["item %d%s" % (i, "-" + c if i == row else "") for i in range(n)]
    now = [items(old)]

    def test(t):
        t.h1("the set")
        t.tset(now[0])
        t.tln("end")
    lib.run([("x", test)], {"accept": True})
    s = items(new)
    k = ctx.choice("order", ["same", "reversed", "rotated"])
    now[0] = s if k == "same" else s[::-1] if k == "reversed" else s[n // 3:] + s[:n // 3]
    r = lib.run([("x", test)])
    same = ctx.eq(old, new)
    ctx.check((r.of("x") == "OK") if same else (r.of("x") == "DIFF"), lambda: "%s, %r for %r in item %d" % (r.of("x"), new, old, row))
    ctx.reach("same" if same else "different")


def named(n):
    return ["c%d" % i if i % 3 else "d%d/c%d" % (i % 7, i) for i in range(n)]


def project(ctx, n, bad, ran=None):
    """n cases; bad: {position: verdict}"""
    names = named(n)

    def mk(i):
        def f(t):
            if ran is not None:
                ran.append(names[i])
            t.tln("of %d" % i)
            if bad.get(i) == "FAIL":
                t.fail().tln("bad")
        return f
    for i in range(n):
        if bad.get(i) != "DIFF":
            lib.write("books/%s.md" % names[i], "of %d\n" % i)
        else:
            lib.write("books/%s.md" % names[i], "was %d\n" % i)
    return names, [(names[i], mk(i)) for i in range(n)]


def verdicts(ctx, n):
    """which of many cases are not OK, and how"""
    how = ctx.choice("verdict", ["DIFF", "FAIL"])
    which = ctx.choice("cases", [[], [0], [n // 2], [n - 1], [1, n - 2], list(range(n))])
    return {i: how for i in which}


def report(ctx, sizes, args):
    """exit status and report of many cases"""
    n = ctx.choice("size", sizes)
    bad = verdicts(ctx, n)
    names, cases = project(ctx, n, bad)
    a = ctx.choice("arguments", args)
    if "-c" in a:
        lib.main(cases, ["*"])
    rc, text = lib.main(cases, list(a) + ["*"])
    got = lib.read_cases("books/.out/cases.txt")
    ctx.check(sorted(g[0] for g in got) == sorted(names), lambda: "%d of %d cases in the report" % (len(got), n))
    for g in got:
        ctx.check(g[1] == bad.get(names.index(g[0]), "OK"), lambda: "%r" % (g,))
    ctx.check((rc == 0) == (not bad), lambda: "exit status %r with %d of %d cases not OK" % (rc, len(bad), n))
    # the status of a process has eight bits
    ctx.check(not bad or rc % 256 != 0, lambda: "exit status %r is success to the shell" % (rc,))
    ctx.reach("bad" if bad else "good")


def selection(ctx, n):
    """one, many or all but one of many cases"""
    names, cases = project(ctx, n, {})
    i = ctx.choice("case", [0, 1, n // 2, n - 1])
    how = ctx.choice("how", ["one", "directory", "skip", "all but some", "many"])
    if how == "one":
        args, want = [names[i]], [names[i]]
    elif how == "directory":
        d = "d%d" % (i % 7)
        args, want = [d], [x for x in names if x.startswith(d + "/")]
    elif how == "skip":
        args, want = ["skip:" + names[i]], [x for x in names if x != names[i]]
    elif how == "all but some":
        out = names[::2]
        args, want = ["*"] + ["skip:" + x for x in out], [x for x in names if x not in out]
    else:
        args = names[1::2]
        want = [x for x in names if x in args]
    if not want:
        return
    lib.main(cases, args)
    got = [g[0] for g in lib.read_cases("books/.out/cases.txt")]
    ctx.check(sorted(got) == sorted(want), lambda: "%d cases instead of %d: %r" % (len(got), len(want), got[:5]))
    ctx.reach(how)


def chain(ctx, n, what):
    """many tests, each using the result of the one before, defined in any of some orders"""
    order = ctx.choice("order", ["forward", "backward", "odd first"])
    start = ctx.choice("selected", ["last", "all"])
    base = ctx.choice("value", [0, 7])
    fill = "x" * ctx.choice("size", [0, 300000])
    seen, fs = {}, []

    def mk(i):
        if i == 0:
            def f(t):
                ran.append(i)
                t.tln("0")
                return base, fill
            return f

        def f(t, v):
            ran.append(i)
            seen[i] = v
            t.tln("%d" % i)
            return v[0] + 1, v[1]
        return bt.depends_on(fs[i - 1])(f)
    ran = []
    for i in range(n):
        fs.append(mk(i))
    ids = list(range(n))
    if order == "backward":
        ids = ids[::-1]
    elif order == "odd first":
        ids = ids[1::2] + ids[::2]
    cases = [("n%d" % i, fs[i]) for i in ids]
    rc, text = lib.main(cases, ["-a", "n%d" % (n - 1) if start == "last" else "*"])
    if what == "order":
        ctx.check(sorted(ran) == list(range(n)), lambda: "%r ran of %d" % (ran, n))
        ctx.check(all(ran.index(i) < ran.index(i + 1) for i in range(n - 1)), lambda: "ran in the order %r" % ran)
    else:
        ctx.check(all(seen.get(i) == (base + i - 1, fill) for i in range(1, n)), lambda: "got %r" % ([x[0] for x in seen.values()],))
    ctx.check(rc == 0, lambda: text[-300:])
    ctx.reach("done")


def wide(ctx, n):
    """a test that uses the results of many others"""
    order = ctx.choice("order", ["before", "after"])
    got = []

    def mk(i):
        def f(t):
            t.tln("%d" % i)
            return "r%d" % i
        return f
    fs = [mk(i) for i in range(n)]

    @bt.depends_on(*fs)
    def user(t, *vs):
        got.append(list(vs))
        t.tln("user")
    cases = [("n%d" % i, f) for i, f in enumerate(fs)]
    cases = [("user", user)] + cases if order == "after" else cases + [("user", user)]
    rc, text = lib.main(cases, ["-a", ctx.choice("selected", ["user", "*"])])
    ctx.check(got == [["r%d" % i for i in range(n)]], lambda: "got %r" % (got,))
    ctx.reach("done")


def continued(ctx, n):
    """a run of many is continued"""
    ran = []
    bad = verdicts(ctx, n)
    names, cases = project(ctx, n, bad, ran)
    lib.main(cases, ["*"])
    ctx.check(sorted(ran) == sorted(names), "not all ran")
    del ran[:]
    fixed = ctx.flag("fixed")
    if fixed:
        for i in bad:
            if bad[i] == "DIFF":
                lib.write("books/%s.md" % names[i], "of %d\n" % i)
    rc, text = lib.main(cases, ["-c", "*"])
    ctx.check(ran == [names[i] for i in range(n) if i in bad], lambda: "%r ran again of %r" % (ran[:5], [names[i] for i in bad][:5]))
    got = lib.read_cases("books/.out/cases.txt")
    want = {names[i]: "OK" if i not in bad or fixed and bad[i] == "DIFF" else bad[i] for i in range(n)}
    ctx.check(dict((g[0], g[1]) for g in got) == want and len(got) == n, lambda: "report of %d cases" % len(got))
    ctx.reach("done")


def reviewed(ctx, n):
    """a review of many"""
    bad = verdicts(ctx, n)
    names, cases = project(ctx, n, bad)
    lib.main(cases, ["*"])
    accept = ctx.flag("accept")
    rc, text = lib.main(cases, (["-a"] if accept else []) + ["--review", "*"])
    want = {names[i]: "OK" if i not in bad or accept and bad[i] == "DIFF" else bad[i] for i in range(n)}
    got = lib.read_cases("books/.out/cases.txt")
    ctx.check([g[0] for g in got] == names and dict((g[0], g[1]) for g in got) == want, lambda: "report %r" % (got[:4],))
    ctx.check((rc == 0) == all(v == "OK" for v in want.values()), lambda: "status %r" % rc)
    for i, x in enumerate(names):
        s = lib.read("books/%s.md" % x)
        ctx.check(s == ("was %d\n" % i if bad.get(i) == "DIFF" and not accept else "of %d\n" % i), lambda: "snapshot of %s: %r" % (x, s))
    ctx.reach("done")


def index(ctx, n, depth):
    """the index of many cases, and of deep ones"""
    kind = ctx.choice("cases", ["many", "deep"])
    if kind == "many":
        names = named(n)
    else:
        names = ["/".join(["d%d" % j for j in range(k)] + ["x"]) for k in range(depth)]
        if ctx.flag("turned"):
            names = names[::-1]

    def f(t):
        t.tln("x")
    lib.run([(x, f) for x in names], {"accept": True})
    text = lib.read("books/index.md")
    ls = [l for l in text.split("\n") if l.strip()][1:]
    # reading it back: where every link stands
    got, stack = [], []
    for l in ls:
        level = (len(l) - len(l.lstrip(" ")) - 1) // 4
        item = l.strip()[2:]
        del stack[level:]
        if item.startswith("["):
            leaf, link = item[1:].split("](")
            got.append(("/".join(stack + [leaf]), link[:-1]))
        else:
            stack.append(item)
    ctx.check(got == [(x, x + ".md") for x in names], lambda: "%r" % ([g for g, x in zip(got, names) if g != (x, x + ".md")][:3],))
    ctx.reach(kind)


def cleaned(ctx, n, depth):
    """files that no test owns between those of many, and deep"""
    names, cases = project(ctx, n, {})
    deep = "/".join(["d%d" % j for j in range(depth)])
    names.append(deep + "/x")
    lib.write("books/%s/x.md" % deep, "x\n")
    lib.write("books/%s/x/plot.png" % deep, "p")
    cases.append((deep + "/x", lambda t: t.tln("x")))
    stray = ctx.choice("stray", [[], ["books/c%d.md" % n], ["books/%s/y.md" % deep], ["books/%s/x/deep/z" % deep], ["books/c1.md.old", "books/c1/z", "books/c10.mdx"]])
    mine = [s for s in stray if "/x/deep/" in s or s == "books/c1/z"]
    for s in stray:
        lib.write(s, "s")
    rc, text = lib.main(cases, ["--garbage"])
    listed = sorted(l.strip() for l in text.split("\n") if l.strip())
    want = sorted(s for s in stray if s not in mine)
    ctx.check(listed == want, lambda: "listed %r instead of %r" % (listed, want))
    rc, text = lib.main(cases, ["--clean"])
    for s in stray:
        ctx.check(os.path.exists(s) == (s in mine), lambda: "%s %s" % (s, "removed" if s in mine else "left"))
    for x in names:
        ctx.check(os.path.exists("books/%s.md" % x), lambda: "removed the snapshot of " + x)
    ctx.reach("stray" if stray else "none")


def environment(ctx, n):
    """many variables, set or not before"""
    before = {"BTV_%d" % i: "old %d" % i for i in range(0, n, 2)}
    env = {"BTV_%d" % i: None if i % 3 == 0 else "new %d" % i for i in range(n)}
    i = ctx.choice("which", [0, n // 2, n - 1])
    env["BTV_%d" % i] = ctx.char("value", SOME)
    missing = ctx.flag("missing")
    saved = dict(os.environ)
    seen = []
    try:
        os.environ.update(before)

        @(bt.mock_missing_env if missing else bt.mock_env)(env)
        def f(t):
            seen.append({k: os.environ.get(k) for k in env})
            t.tln("x")
        world = dict(os.environ)
        lib.run([("x", f)], {"accept": True})
        want = {k: before[k] if missing and k in before else v for k, v in env.items()}
        ctx.check(len(seen) == 1 and all(seen[0][k] is want[k] if want[k] is None else ctx.eq(seen[0][k], want[k]) for k in want), lambda: "saw %r instead of %r" % (seen, want))
        ctx.check(dict(os.environ) == world, "not restored")
    finally:
        os.environ.clear()
        os.environ.update(saved)
    ctx.reach("done")


def settings(ctx, n, width):
    """a long settings file with long values"""
    row = ctx.choice("line", [0, n // 2, n - 1])
    c = ctx.char("value", charset("a=# 1"))
    ls = []
    want = {}
    for i in range(n):
        v = "v%d" % i + "x" * width + (c + "e" if i == row else "")
        ls.append("key%d=%s" % (i, v))
        want["key%d" % i] = v
        if i % 5 == 0:
            ls += ["", "# comment %d=1" % i]
    p = ctx.choice("file", [".booktest", "home/.booktest"])
    os.environ["HOME"] = os.path.abspath("home")
    lib.write(p, "\n".join(ls) + ("\n" if ctx.flag("ends") else ""))
    seen = []

    def f(t):
        seen.append(dict(t.config))
        t.tln("x")
    bt.config.DEFAULT_CONFIG = None
    lib.main([("x", f)], ["*"])
    bt.config.DEFAULT_CONFIG = None
    ctx.check(len(seen) == 1, "did not run")
    for k in want:
        ctx.check(k in seen[0] and ctx.eq(seen[0][k], want[k]), lambda: "%s is %r" % (k, seen[0].get(k)))
    ctx.reach("done")


def formats(ctx, depth, width):
    """deep and wide values"""
    import json
    kind = ctx.choice("kind", ["deep list", "deep dict", "wide list", "wide dict", "mixed"])
    a, b = ctx.char("a", SOME), ctx.char("b", SOME)

    def value(c):
        if kind == "deep list":
            v, f = c, "str"
            for i in range(depth):
                v, f = [v], [f]
        elif kind == "deep dict":
            v, f = c, "str"
            for i in range(depth):
                v, f = {"k%d" % i: v}, {"k%d" % i: f}
        elif kind == "wide list":
            v = [c if i % 2 else i for i in range(width)]
            f = ["str" if i % 2 else "int" for i in range(width)]
        elif kind == "wide dict":
            v = {"k%d" % i: c if i % 2 else None for i in range(width)}
            f = {"k%d" % i: "str" if i % 2 else "NoneType" for i in range(width)}
        else:
            v, f = 1.5, "float"
            for i in range(depth // 2):
                v, f = [{"a": v, "b": [c] * 3}, True], [{"a": f, "b": ["str"] * 3}, "bool"]
        return v, f
    now = [value(a)[0]]

    def test(t):
        t.tformat(now[0])
    lib.run([("x", test)], {"accept": True})
    text = lib.read("books/x.md")
    ctx.check(json.loads(text) == value(a)[1], lambda: "%r" % text[:300])
    now[0] = value(b)[0]
    r = lib.run([("x", test)])
    ctx.check(r.of("x") == "OK", lambda: r.of("x"))
    ctx.reach("done")


def table(ctx, shapes):
    """a table with many rows, many columns or wide cells"""
    rows, cols, width = ctx.choice("shape", shapes)
    i, j = ctx.choice("row", [0, rows - 1]), ctx.choice("column", [0, cols - 1])
    old, new = ctx.char("old", charset("ab1")), ctx.char("new", charset("ab1"))

    def cells(c):
        return {"column %d" % k: ["r%d.%d" % (r, k) + "w" * width + (c if (r, k) == (i, j) else "") for r in range(rows)] for k in range(cols)}
    now = [cells(old)]

    def test(t):
        t.ttable(now[0])
    lib.run([("x", test)], {"accept": True})
    text = lib.read("books/x.md").split("\n")
    got = [[c.strip() for c in l.split("|")[1:-1]] for l in text[2:-1]]
    want = [[now[0][k][r] for k in now[0]] for r in range(rows)]
    ctx.check(len(got) == rows and all(len(g) == cols for g in got) and ctx.all([ctx.eq(x, y) for p, q in zip(got, want) for x, y in zip(p, q)]), "another table")
    now[0] = cells(new)
    r = lib.run([("x", test)])
    same = ctx.eq(old, new)
    ctx.check((r.of("x") == "OK") if same else (r.of("x") == "DIFF"), lambda: "%s, %r for %r" % (r.of("x"), new, old))
    ctx.reach("same" if same else "different")


def names(ctx, lengths):
    """two cases with long names that differ in one place"""
    n = ctx.choice("length", lengths)
    where = ctx.choice("where", ["start", "middle", "end"])
    d = ctx.choice("directory", ["", "deep/" * 12])
    a, b = ctx.char("a", charset("ab.-_ ")), ctx.char("b", charset("ab.-_ "))
    ctx.assume(not ctx.eq(a, b))
    base = "n" * n
    x, y = d + at(base, where, a), d + at(base, where, b)
    got = []

    def one(t):
        t.tln("one")
        return 1

    def two(t):
        t.tln("two")
        return 2

    @bt.depends_on(one, two)
    def use(t, v, w):
        got.append((v, w))
        t.tln("use")
    r = lib.run([(x, one), (y, two), ("use", use)], {"accept": True})
    ctx.check(got == [(1, 2)], lambda: "got %r" % (got,))
    ctx.check(lib.read("books/%s.md" % x) == "one\n" and lib.read("books/%s.md" % y) == "two\n", "snapshots mixed up")
    r = lib.run([(x, one), (y, two), ("use", use)])
    ctx.check(all(c[1] == "OK" for c in r.cases) and len(r.cases) == 3, lambda: "%r" % (r.cases,))
    ctx.reach("done")



def parallel(ctx, n, args, graphs, slows=(None, 0, -1)):
    """many cases over several workers: order, resources, verdicts, the report"""
    from props import par
    graph = ctx.choice("graph", graphs)
    slow = ctx.choice("slow", slows)
    bad = verdicts(ctx, n)
    # nothing can use the result of a failed test
    ctx.assume(graph in ("none", "resources") or "FAIL" not in bad.values())
    ran, fs = [], []
    names = named(n)
    deps = {i: [] for i in range(n)}
    res = {i: None for i in range(n)}

    def mk(i):
        def f(t, *values):
            ran.append(names[i])
            ctx.env._now += 1.5
            t.tln("of %d" % i)
            t.iln("got %d" % len(values))
            if bad.get(i) == "FAIL":
                t.fail().tln("bad")
            return i
        if graph == "chain":
            deps[i] = [i - 1] if i else []
        elif graph == "last uses all":
            deps[i] = list(range(n - 1)) if i == n - 1 else []
        elif graph == "pairs":
            deps[i] = [i - 1] if i % 2 else []
        elif graph == "resources":
            res[i] = "r%d" % (i % 3)
        rs = [bt.Resource("v", res[i])] if res[i] else []
        ds = rs + [fs[d] for d in deps[i]]
        return bt.depends_on(*ds)(f) if ds else f
    for i in range(n):
        fs.append(mk(i))
        lib.write("books/%s.md" % names[i], "%s %d\n" % ("was" if bad.get(i) == "DIFF" else "of", i))
    slow = names[slow] if slow is not None else None
    w = par.World(ctx, 0)
    looks = [0]

    def poll(task):
        if task.args[0] == slow:
            looks[0] += 1
            if looks[0] < 10:
                return
        task.pool.complete(task)
    w.on_poll = poll

    def started(name, running, done):
        i = names.index(name)
        ctx.check(name not in running and name not in done, lambda: "%s is started again" % name)
        for d in deps[i]:
            ctx.check(names[d] in done, lambda: "%s is started before %s has finished" % (name, names[d]))
        for x in running:
            ctx.check(res[i] is None or res[names.index(x)] != res[i], lambda: "%s and %s both use %s" % (name, x, res[i]))
    w.on_started = started
    text = w.run_main(list(zip(names, fs)), list(args) + ["*"])
    rc, text = text
    ctx.check(sorted(ran) == sorted(names), lambda: "%d ran of %d" % (len(ran), n))
    got = lib.read_cases("books/.out/cases.txt")
    ctx.check(sorted((g[0], g[1]) for g in got) == sorted((names[i], bad.get(i, "OK")) for i in range(n)), lambda: "report %r" % (got[:5],))
    ctx.check((rc == 0) == (not bad) and (not bad or rc % 256 != 0), lambda: "exit status %r" % rc)
    ctx.check("%d/%d test %s in" % (len(bad) or n, n, "failed" if bad else "succeeded") in text, lambda: text[-200:])
    ctx.reach("bad" if bad else "good")


def modes(ctx, n):
    """many cases, serially and over workers: the same"""
    from props import par
    bad = verdicts(ctx, n)
    names, cases = project(ctx, n, bad)
    flags = ["-a"] if ctx.flag("accept") else []

    def state():
        t = {k: v for k, v in lib.tree("books").items() if not k.startswith(".out/.batches") and k not in (".out/metrics.json", ".out/cases.txt", ".out/output.txt") and v is not None}
        return t, sorted(c[:2] for c in lib.read_cases("books/.out/cases.txt"))
    if ctx.flag("parallel first"):
        par.World(ctx, 0).run_main(cases, flags + ["-p3", "*"])
        a = state()
        import shutil
        shutil.rmtree("books")
        project(ctx, n, bad)
        lib.main(cases, flags + ["*"])
    else:
        lib.main(cases, flags + ["*"])
        a = state()
        import shutil
        shutil.rmtree("books")
        project(ctx, n, bad)
        par.World(ctx, 0).run_main(cases, flags + ["-p3", "*"])
    b = state()
    ctx.check(a[1] == b[1], lambda: "verdicts %r and %r" % (a[1][:4], b[1][:4]))
    ctx.check(a[0] == b[0], lambda: "files differ: %r" % ([k for k in set(a[0]) | set(b[0]) if a[0].get(k) != b[0].get(k)][:6],))
    ctx.reach("done")


def tokens(ctx, n, spec, alphabet):
    """long words, numbers and blanks, and many of them"""
    from booktest.tokenizer import TestTokenizer
    kind = ctx.choice("kind", ["word", "number", "fraction", "blank", "signs", "many", "other digits"])
    base = {"word": "wö" * n, "number": "12" * n, "fraction": "1." + "25" * n, "blank": " \t" * n, "signs": "+-" * n, "many": "ab 1.5,-3\t" * (n // 5),
            "other digits": "\u0663\u00b2" * n}[kind]
    where = ctx.choice("where", [0, 1, len(base) // 2, len(base) - 2, len(base) - 1])
    text = base[:where] + ctx.char("c", alphabet) + base[where + 1:]
    got = []
    for t in TestTokenizer(text):
        got.append(t)
        if len(got) > len(text):
            ctx.fail("more tokens than characters")
    want = [text[a:b] for a, b in spec(text)]
    ctx.check(len(got) == len(want) and ctx.all([ctx.eq(g, w) for g, w in zip(got, want)]), "other tokens")
    ctx.reach("done")


def lru(ctx, sizes):
    """a cache of many: filled, used at a symbolic place, filled more"""
    from booktest.cache import LruCache
    size = ctx.choice("size", sizes)
    fill = ctx.choice("filled", [size - 1, size, size + 1, 2 * size])
    used = ctx.int("used", 0, fill)
    more = ctx.choice("more", [0, 1, size - 1])
    cache = LruCache(size)
    model = []
    for i in range(fill):
        cache["k%d" % i] = i + 1
        model.append(i)
        del model[:-size]
        ctx.check(len(cache) == len(model), lambda: "%d entries instead of %d" % (len(cache), len(model)))
    u = int(used)
    held = u in model
    v = cache["k%d" % u]
    ctx.check(v == (u + 1 if held else None), lambda: "k%d reads as %r" % (u, v))
    if held:
        model.remove(u)
        model.append(u)
    for i in range(fill, fill + more):
        cache["k%d" % i] = i + 1
        model.append(i)
        del model[:-size]
    for i in range(fill + more):
        ctx.check(("k%d" % i in cache) == (i in model), lambda: "k%d of %r is %s" % (i, model[:3], "lost" if i in model else "held"))
    for i in list(model):
        ctx.check(cache["k%d" % i] == i + 1, lambda: "k%d reads as another" % i)
    ctx.check(len(cache) == len(model), "another size")
    ctx.reach("held" if held else "dropped")


def detected(ctx, n):
    """a file with many functions and methods"""
    from props import c27
    kind = ctx.choice("kind", ["functions", "methods", "files"])
    c = ctx.char("letter", charset("abz0_"))
    order = ctx.choice("order", ["up", "down", "mixed"])
    ids = list(range(n))
    if order == "down":
        ids = ids[::-1]
    elif order == "mixed":
        ids = ids[1::2] + ids[::2]
    odd = ids[n // 2]
    ns = {i: "test_f%d" % i + ("x" + c if i == odd else "") for i in ids}
    if kind == "files":
        mods = ["t.m%d_test" % i for i in range(n)]
        try:
            for i in range(n):
                lib.write("t/m%d_test.py" % i, "")
                m = c27.module("t.m%d_test" % i)
                m.test_f = c27.function("test_f", m.__name__)
            got = bt.merge_tests(c27.detect("t")).cases
            ctx.check(sorted(g for g, f in got) == sorted("t/m%d/f" % i for i in range(n)), lambda: "cases %r" % (got[:5],))
        finally:
            c27.gone(mods)
    else:
        mod = "t.foo_book"
        m = c27.module(mod)
        try:
            lib.write("t/foo_book.py", "")
            fs = {}
            if kind == "functions":
                for i in ids:
                    fs[i] = c27.function(ns[i], mod)
                    setattr(m, ns[i], fs[i])
                path = "t/foo"
            else:
                for i in ids:
                    fs[i] = c27.function(ns[i], mod, 2)
                k = c27.book("FooBook", mod, [(ns[i], fs[i]) for i in ids])
                m.FooBook = k
                path = "t/foo"
            got = bt.merge_tests(c27.detect("t")).cases
            want = [(path + "/" + ns[i][5:], fs[i]) for i in ids]
            if kind == "functions":
                # in any order
                got = [g for w, f in want for g in got if g[1] is f]
            ctx.check(len(got) == len(want), lambda: "%d cases instead of %d: %r" % (len(got), len(want), got[:3]))
            for (g, gf), (w, wf) in zip(got, want):
                ctx.check(ctx.eq(g, w) and getattr(gf, "__func__", gf) is wf, lambda: "case %r instead of %r" % (g, w))
        finally:
            c27.gone([mod])
    ctx.reach(kind)


def calls(ctx, n, same):
    """many snapshotted calls, of which one is another the second time"""
    from props import c19
    c19.restore()
    try:
        made = []

        def real(fn, args, kw):
            made.append((fn, args))
            return {"of": list(args), "long": ["result"] * 50}
        c19.REAL = real
        row = ctx.choice("call", [0, n // 2, n - 1])
        old, new = ctx.char("old", SOME), ctx.char("new", SOME)
        mode = ctx.choice("mode", ["", "complete_snapshots", "refresh_snapshots"])
        long = "long " * ctx.choice("long", [0, 2000])
        now, got = [old], []

        def test(t):
            for i in range(n):
                arg = "v%d" % (i % same) + ("-" + long + now[0] if i == row else "")
                got.append(c19.invoke("f" if i % 2 else "g", [arg], {}))
            t.tln("end")
        case = bt.snapshot_functions(c19.f, c19.g)(test)
        r = lib.run([("x", case)], {"complete_snapshots": True, "accept": True})
        ctx.check(r.of("x") == "OK" and len(got) == n, lambda: "captured %d\n%s" % (len(got), lib.read("books/.out/x.md")))
        first, k0 = list(got), len(made)
        del got[:]
        now[0] = new
        same_ = bool(ctx.eq(old, new))
        r = lib.run([("x", case)], dict({mode: True} if mode else {}))
        if same_ or mode:
            ctx.check(len(got) == n, lambda: "%d of %d calls, %s" % (len(got), n, r.of("x")))
            for i in range(n):
                if i != row or same_:
                    if mode != "refresh_snapshots":
                        ctx.check(got[i] == first[i], lambda: "call %d gives %r instead of %r" % (i, got[i], first[i]))
                ctx.check(ctx.eq(got[i]["of"][0], "v%d" % (i % same) + ("-" + long + new if i == row else "")), lambda: "call %d gives %r" % (i, got[i]))
            extra = len(made) - k0
            want = {"": 0, "complete_snapshots": 0 if same_ else 1}.get(mode)
            ctx.check(want is None or extra == want, lambda: "%d calls were made" % extra)
        else:
            ctx.check(r.of("x") == "FAIL" and len(made) == k0, lambda: "%s, %d calls were made" % (r.of("x"), len(made) - k0))
        ctx.check(c19.intact(), "not undone")
        ctx.reach("same" if same_ else "different")
    finally:
        c19.restore()


def exchanges(ctx, libs, n, same):
    """many requests, many of them the same: the responses come in the order of recording"""
    from props import http
    lib_ = ctx.choice("library", libs)
    order = ctx.choice("order", ["same", "reversed", "fewer"])
    mode = ctx.choice("mode", ["", "complete_snapshots"])
    content = ctx.char("content", charset("ab"))
    size = ctx.choice("size", [1, 100000])

    def respond(k):
        return 200, {"X-Answer": "h%d" % k, "Content-Type": "text/plain"}, (("%d " % k) + content * size).encode("utf-8")
    now, got = [list(range(n))], []

    def body(t):
        for i in now[0]:
            r = yield http.prepare(lib_, "POST" if size > 1 else "GET", "p%d" % (i % same), {"x-key": "k"}, "body " * size + "%d" % i if size > 1 else None)
            got.append((i, r.headers["x-answer"], r.content))
        t.tln("end")
    if size > 1:
        same = n
    n_ = n if size == 1 else 3
    now[0] = list(range(n_))
    with http.Net(respond) as net:
        case, sess = http.case_of(lib_, http.decorator(lib_)(), body)
        lib.run([("x", case)], {"complete_snapshots": True, "accept": True})
        ctx.check(len(got) == n_ and len(net.sent) == n_, lambda: "captured %d\n%s" % (len(got), lib.read("books/.out/x.md")))
        first = list(got)
        del got[:]
        if order == "reversed":
            now[0] = now[0][::-1]
        elif order == "fewer":
            now[0] = now[0][:1] + now[0][n_ // 2:]
        r = lib.run([("x", case)], {mode: True} if mode else {})
        ctx.check(len(net.sent) == n_, lambda: "%d requests were sent" % (len(net.sent) - n_))
        ctx.check(len(got) == len(now[0]), lambda: "%d responses, %s\n%s" % (len(got), r.of("x"), lib.read("books/.out/x.md")))
        count = {}
        for (i, h, c), j in zip(got, now[0]):
            key = j % same
            k = count.get(key, 0)
            count[key] = k + 1
            want = [f for f in first if f[0] % same == key][k]
            ctx.check((h, c) == want[1:], lambda: "request %d got %r instead of %r" % (j, h, want[1]))
    ctx.reach("done")


def asked_files(ctx, n, depth):
    """many files and directories of one test, and of deep ones"""
    from props import c28
    name = ctx.choice("test", ["x", "/".join(["d%d" % i for i in range(depth)]) + "/x", "n" * 120])
    i = ctx.choice("which", [0, n // 2, n - 1])
    c = ctx.char("name", charset("ab. "))
    seen = []

    def f(t):
        for k in range(n):
            q = "f%d" % k + ("x" + c + "y" if k == i else "")
            p = t.file(q)
            with open(p, "w") as h:
                h.write("of %d" % k)
            s = t.tmp_file(q)
            with open(s, "w") as h:
                h.write("tmp %d" % k)
            seen.append((p, s))
        t.tln("x")
    lib.run([(name, f)], {"accept": True})
    ctx.check(len(seen) == n, lambda: lib.read("books/.out/%s.md" % name))
    ctx.check(len(set([p for p, s in seen] + [s for p, s in seen])) == 2 * n, "two files of the same path")
    for k, (p, s) in enumerate(seen):
        q = "f%d" % k + ("x" + c + "y" if k == i else "")
        kept = os.path.join("books", name, q)
        ctx.check(lib.read(kept) == "of %d" % k, lambda: "%s holds %r" % (kept, lib.read(kept)))
        ctx.check(lib.read(s) == "tmp %d" % k and not os.path.exists(os.path.join("books", name + ".tmp", q)), lambda: "%s holds %r" % (s, lib.read(s)))
    ctx.reach("done")


def listed(ctx, n):
    """commands on many cases"""
    names = named(n)
    bad = verdicts(ctx, n)
    names, cases = project(ctx, n, bad)
    cmd = ctx.choice("command", ["-l", "--path", "--print", "--forget"])
    cont = ctx.flag("-c")
    lib.main(cases, ["*"])
    recs = lib.read_cases("books/.out/cases.txt")
    i = ctx.choice("skipped", [None, 0, n - 1])
    sel = ["*"] + (["skip:" + names[i]] if i is not None else [])
    chosen = [x for k, x in enumerate(names) if k != i]
    todo = [x for k, x in enumerate(names) if k != i and (not cont or k in bad)]
    rc, out = lib.main(cases, [cmd] + (["-c"] if cont else []) + sel)
    if cmd == "-l":
        ctx.check(out == "".join("  %s\n" % x for x in todo), lambda: "%d lines for %d" % (out.count("\n"), len(todo)))
    elif cmd == "--path":
        ctx.check(out == "".join("books/%s.md\n" % x for x in todo), lambda: "%d lines for %d" % (out.count("\n"), len(todo)))
    elif cmd == "--print":
        ctx.check(out == "".join(lib.read("books/%s.md" % x) for x in todo), lambda: "%d lines for %d" % (out.count("\n"), len(todo)))
    else:
        got = lib.read_cases("books/.out/cases.txt")
        ctx.check([g[:2] for g in got] == [r[:2] for r in recs if r[0] not in chosen], lambda: "%d records left" % len(got))
    ctx.reach(cmd)


def shown(ctx, n, width):
    """the console of many cases with long names and long reports"""
    import json
    from props import c39
    names = ["d%d/" % (i % 7) + "n" * width + "%d" % i for i in range(n)]
    how = ctx.choice("verdict", ["DIFF", "FAIL"])
    bad = {i: how for i in ctx.choice("cases", [[], [0], [n - 1], list(range(n))])}
    flags = ctx.choice("flags", [(), ("-v",)])
    c = ctx.char("text", charset("ab# "))
    page_ = page(50, 100)

    def mk(i):
        def f(t):
            for l in page_:
                t.tln(l)
            t.tln("last " + c + ("~" if bad.get(i) == "DIFF" else ""))
            if bad.get(i) == "FAIL":
                t.fail().iln("bad")
            ctx.env._now += 0.0015
        return f
    for x in names:
        lib.write("books/%s.md" % x, "\n".join(page_) + "\nlast " + c + "\n")
    rc, text = lib.main([(x, mk(i)) for i, x in enumerate(names)], list(flags) + ["*"])
    recs = lib.read_cases("books/.out/cases.txt")
    want = "\n# test results:\n\n"
    for i, r in enumerate(recs):
        ctx.check(r[0] == names[i] and r[1] == bad.get(i, "OK"), lambda: "recorded %r" % (r,))
        want += c39.block(r[0], r[1], int(float(r[2])), lib.lines(lib.read("books/.out/%s.txt" % r[0])), [], "-v" in flags, 0)
    want += c39.end([(r[0], r[1]) for r in recs], json.loads(lib.read("books/.out/metrics.json"))["tookMs"])
    ctx.check(ctx.eq(text, want), "the console shows something else")
    ctx.reach("done")
