"""C23 The index links every test exactly once in its place"""
from sx.ctx import Harness
from sx.core import charset
from props import lib, par, large
import booktest as bt

ASSUMPTIONS = ["names are slash separated paths without empty components, brackets or line ends; the index is the file index.md of the books directory"]
SMALL = charset("ab/")
WIDE = charset("ab/ ._*#-")


def is_path(ctx, s):
    ctx.assume(len(s) > 0 and s[0] != "/" and s[len(s) - 1] != "/")
    for i in range(len(s) - 1):
        ctx.assume(not ctx.all([ctx.eq(s[i], "/"), ctx.eq(s[i + 1], "/")]))


def entries(ctx, text):
    """[(directory path, leaf, target)] of the links in the index; headings with no link below are reported too"""
    out = []
    stack = []
    used = []
    lines = text.split("\n")
    ctx.check(lines[0].startswith("#"), lambda: "no heading: %r" % text)
    for line in lines[1:]:
        if line == "":
            continue
        depth = 0
        while line[depth * 4:depth * 4 + 4] == "    ":
            depth += 1
        rest = line[depth * 4:]
        ctx.check(rest.startswith(" * "), lambda: "unexpected line %r in %r" % (line, text))
        rest = rest[3:]
        ctx.check(depth <= len(stack), lambda: "line %r is too deep in %r" % (line, text))
        if depth < len(stack):
            ctx.check(all(used[depth:]), lambda: "a heading without links in %r" % text)
            gone = stack[depth]
            del stack[depth:], used[depth:]
            # the preceding test is in that directory, too
            ctx.check(rest.startswith("[") or not ctx.eq(rest, gone), lambda: "%r is announced again in %r" % (rest, text))
        if rest.startswith("["):
            i = rest.index("](")
            out.append((list(stack), rest[1:i], rest[i + 2:]))
            used = [True] * len(stack)
        else:
            stack.append(rest)
            used.append(False)
    ctx.check(all(used), lambda: "a heading without links in %r" % text)
    return out


def check_index(ctx, names, root="books"):
    text = lib.read(root + "/index.md")
    ctx.check(text is not None, "no index")
    got = entries(ctx, text)
    ctx.check(len(got) == len(names), lambda: "%d links of %d tests %r in %r" % (len(got), len(names), names, text))
    for (dirs, leaf, target), n in zip(got, names):
        parts = n.split("/")
        ctx.check(ctx.eq(target, n + ".md)"), lambda: "link to %r instead of %r in %r" % (target, n, text))
        ctx.check(ctx.eq("/".join(dirs + [leaf]), n) and len(dirs) == len(parts) - 1, lambda: "link to %r under %r, %r in %r" % (n, dirs, leaf, text))
    return text


def names(ctx, ntests, nlen, alphabet, dirs, prefixes=("",)):
    """any names, only one of the tests runs"""
    ns = []
    for i in range(ntests):
        n = ctx.choice("dir%d" % i, dirs) + ctx.text("test%d" % i, nlen, alphabet)
        is_path(ctx, n)
        ns.append(n)
    for i in range(ntests):
        for j in range(i):
            ctx.assume(not ctx.eq(ns[i], ns[j]) if len(ns[i]) == len(ns[j]) else True)
    at = ctx.pick("at", ntests + 1)
    ns.insert(at, "z")
    if ctx.flag("old index"):
        lib.write("books/index.md", "old\n" * 50)
    lib.main([(n, lambda t: None) for n in ns], ["z"])
    check_index(ctx, ns)
    ctx.reach("done")


def runs(ctx):
    """whatever is selected, fails, is aborted or runs in parallel"""
    ns = [n for n in ["a/b/c", "a/b", "a/d", "e", "a/b/f", "g/h/i/j"] if ctx.flag("has " + n)]
    ctx.assume(len(ns) > 0)
    fails = ctx.choice("failing", [None, ns[0]])

    def mk(n):
        def f(t):
            t.tln("x")
            if n == fails:
                raise ValueError("boom")
        return f
    args = ctx.choice("arguments", [["*"], [ns[-1]], ["skip:" + ns[0]], ["-f", "*"], ["-c", "*"], ["-i", "*"], ["-p2", "*"]])
    tests = [(n, mk(n)) for n in ns]
    if "-i" in args:
        ctx.env.input_hook = lambda prompt: "q"
    if "-p2" in args:
        par.World(ctx, 0).run_main(tests, args)
    else:
        lib.main(tests, args)
    check_index(ctx, ns)
    ctx.reach("done")


HARNESSES = [
    Harness("names", names, dict(ntests=2, nlen=(1, 3), alphabet=SMALL, dirs=("", "a/")),
            dict(ntests=2, nlen=(1, 5), alphabet=WIDE, dirs=("", "a/")),
            bounds="two (two) tests with any names of up to three (five) characters, in a shared directory or not, and one that runs", witness=("done",)),
    Harness("three", names, dict(ntests=3, nlen=(1, 2), alphabet=SMALL, dirs=("", "a/b/")), dict(ntests=3, nlen=(1, 3), alphabet=SMALL, dirs=("", "a/", "a/b/")),
            bounds="three tests", witness=("done",)),
    Harness("runs", runs, bounds="any subset of six tests, selected, failing, aborted, continued or in parallel", witness=("done",)),
    Harness("large", large.index, dict(n=60, depth=12),
            dict(n=300, depth=30),
            bounds="60 cases, and directories twelve deep", timeout=120, witness=("many", "deep")),
]
