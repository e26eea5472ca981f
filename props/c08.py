"""C08 Set output is judged as a set"""
from sx.ctx import Harness
from sx.core import ALL_UNICODE, charset
from props import lib, ops, large

LINE = ALL_UNICODE.minus(charset("\r\n"))
ASSUMPTIONS = ["items are distinct on either side and one line each; what follows a set does not start with its prefix "
               "(known finding of C02)"]


def sets(ctx, nout, nsnap, ilen, alphabet, befores, afters, prefixes):
    """a set against a list in the snapshot, text before and after"""
    prefix = ctx.choice("prefix", prefixes)
    k = ctx.pick("items", nout + 1)
    m = ctx.pick("old items", nsnap + 1)
    new = [ctx.text("a%d" % i, ilen, alphabet) for i in range(k)]
    old = [ctx.text("b%d" % i, ilen, alphabet) for i in range(m)]
    for l in (new, old):
        for i in range(len(l)):
            for j in range(i):
                ctx.assume(not ctx.eq(l[i], l[j]))
    before, after = ctx.choice("before", befores), ctx.choice("after", afters)
    lines = []
    if before is not None:
        lines.append(before)
    lines += [(" * " if prefix is None else prefix) + x for x in old]
    same_after = True
    if after == "same":
        lines.append("tail")
    elif after == "changed":
        lines.append("tale")
        same_after = False
    elif after == "added":
        same_after = False
    lib.write("books/x.md", "".join([l + "\n" for l in lines]))

    def test(t):
        if before is not None:
            t.tln(before)
        if prefix is None:
            t.tset(new)
        else:
            t.tset(new, prefix)
        if after is not None:
            t.tln("tail")
    v = lib.run([("x", test)]).of("x")
    ctx.observe("verdict", v)
    same_set = k == m and all([any([bool(ctx.eq(x, y)) for y in old]) for x in new])
    same = same_set and same_after
    ctx.reach("same" if same else "different")
    ctx.check(v == ("OK" if same else "DIFF"), lambda: "%s for items %r over %r, before %r, after %r" % (v, new, old, before, after))
    want = "".join([l + "\n" for l in ([before] if before is not None else []) +
                    [(" * " if prefix is None else prefix) + x for x in new] + (["tail"] if after is not None else [])])
    ctx.check(ctx.eq(lib.read("books/.out/x.md"), want), "the items are not in the output")


def two_sets(ctx, n, alphabet):
    """two sets with a line between them: items may not move from one to the other"""
    a = [ctx.char("a%d" % i, alphabet) for i in range(2 * n)]
    b = [ctx.char("b%d" % i, alphabet) for i in range(2 * n)]
    for l in (a[:n], a[n:], b[:n], b[n:]):
        for i in range(len(l)):
            for j in range(i):
                ctx.assume(not ctx.eq(l[i], l[j]))
    sep = ctx.choice("between", ["line", "header"])
    lines = [" * " + x for x in b[:n]] + (["and"] if sep == "line" else ["", "# and", ""]) + [" * " + x for x in b[n:]]
    lib.write("books/x.md", "".join([l + "\n" for l in lines]))

    def test(t):
        t.tset(a[:n])
        if sep == "line":
            t.tln("and")
        else:
            t.h1("and")
        t.tset(a[n:])
    v = lib.run([("x", test)]).of("x")
    ctx.observe("verdict", v)
    same = all([any([bool(ctx.eq(x, y)) for y in b[:n]]) for x in a[:n]]) and \
        all([any([bool(ctx.eq(x, y)) for y in b[n:]]) for x in a[n:]])
    ctx.reach("same" if same else "different")
    ctx.check(v == ("OK" if same else "DIFF"), lambda: "%s for %r over %r" % (v, a, b))


HARNESSES = [
    Harness("sets", sets, dict(nout=3, nsnap=3, ilen=1, alphabet="abc", befores=[None, "head"],
                               afters=[None, "same", "changed", "added"], prefixes=[None]),
            dict(nout=4, nsnap=4, ilen=1, alphabet="abcd", befores=[None, "head"],
                 afters=[None, "same", "changed", "added"], prefixes=[None, "- "]),
            bounds="up to 3 (4) items on either side, every order", witness=("same", "different")),
    Harness("texts", sets, dict(nout=2, nsnap=2, ilen=(0, 1), alphabet=LINE, befores=[None], afters=[None, "same"],
                                prefixes=[None, "- "]),
            dict(nout=2, nsnap=2, ilen=(0, 2), alphabet=LINE, befores=[None], afters=[None, "same"], prefixes=[None, "- "]),
            bounds="up to 2 items of at most 1 (2) characters, any Unicode character", witness=("same", "different")),
    Harness("two", two_sets, dict(n=2, alphabet="abc"), dict(n=3, alphabet="abcd"),
            bounds="two sets of 2 (3) items", witness=("same", "different")),
    Harness("large", large.sets, dict(n=200),
            dict(n=1000),
            bounds="a set of 200 items in another order with one changed item", timeout=120, witness=("same", "different")),
]
