"""C03 Untested output never changes the verdict"""
from sx.ctx import Harness
from sx.core import ALL_UNICODE, charset
from props import lib, large

LINE = ALL_UNICODE.minus(charset("\r\n"))
ASSUMPTIONS = ["information lines have no line breaks of their own and the snapshot has one line in their place, or ends before",
               "on a mixed line the tested part ends with a punctuation mark, so that no token spans both parts",
               "no carriage returns (known finding of C02)"]


def lines_between(ctx, n, tlen, ilen, talpha, ialpha):
    """n lines, tested or untested, against a snapshot with the same number of lines"""
    out, snap, same = [], [], True
    for k in range(n):
        kind = ctx.choice("kind%d" % k, ["tested", "info", "mixed", "info last"])
        if kind == "tested":
            a, b = ctx.text("a%d" % k, tlen, talpha), ctx.text("b%d" % k, tlen, talpha)
            out.append((kind, a))
            snap.append(b)
            if not ctx.eq(a, b):
                same = False
        elif kind == "info":
            a, b = ctx.text("a%d" % k, ilen, ialpha), ctx.text("b%d" % k, ilen, ialpha)
            out.append((kind, a))
            snap.append(b)
        elif kind == "mixed":
            a, b = ctx.text("a%d" % k, ilen, ialpha), ctx.text("b%d" % k, ilen, ialpha)
            out.append((kind, a))
            snap.append("k:" + b)
        else:
            # only at the end: the snapshot has nothing there
            ctx.assume(k == n - 1)
            out.append(("info", ctx.text("a%d" % k, ilen, ialpha)))
    lib.write("books/x.md", "".join([l + "\n" for l in snap]))
    # nothing written is no information
    unfinished = kind == "info last" and len(out[-1][1]) > 0 and ctx.flag("last line unfinished")

    def test(t):
        for i, (kind, a) in enumerate(out):
            if kind == "tested":
                t.tln(a)
                continue
            if kind == "mixed":
                t.t("k:")
            t.i(a)
            if i < len(out) - 1 or not unfinished:
                t.iln()
    v = lib.run([("x", test)]).of("x")
    ctx.observe("verdict", v)
    if same:
        ctx.reach("same")
    else:
        ctx.reach("different")
    ctx.check(v == ("OK" if same else "DIFF"),
              lambda: "%s for %r against %r" % (v, out, snap))
    want = "".join([("k:" + a if kind == "mixed" else a) + "\n" for kind, a in out])
    ctx.check(ctx.eq(lib.read("books/.out/x.md"), want), "the information text is not in the output")


def measures(ctx, olen, alphabet, starts=("",), ops=("ifloatln", "ifloatln unit", "imsln", "tmsln")):
    """measurements against an arbitrary old line: never a difference, never a failure"""
    old = ctx.choice("start", starts) + ctx.text("old", (0, olen), alphabet)
    op = ctx.choice("op", ops)
    after = ctx.choice("after", ["tested", "changed", "nothing"])
    value = ctx.choice("value", [0.0, 1.5, -2.25, 1e20, float("nan"), float("inf")])
    where = ctx.choice("where", ["there", "at the end", "nowhere"])
    if where == "there":
        lib.write("books/x.md", "begin\n" + old + "\nend\n")
    elif where == "at the end":
        lib.write("books/x.md", "begin\n" + old)
        ctx.assume(after == "nothing")
    else:
        lib.write("books/x.md", "begin\n")
        ctx.assume(after == "nothing")
    called = []
    # seconds
    took = ctx.choice("took", [0, 0.5, 86400.0 * 365] if op == "imsln" else [0, 0.5])

    def work():
        called.append(1)
        ctx.env._now += took
        return 7

    def test(t):
        t.tln("begin")
        if op == "ifloatln":
            t.ifloatln(value)
        elif op == "ifloatln unit":
            t.ifloatln(value, "kg")
        elif op == "imsln":
            ctx.check(t.imsln(work) == 7, "imsln loses the function's value")
        else:
            ctx.check(t.tmsln(work, 1000) == 7, "tmsln loses the function's value")
        if after == "tested":
            t.tln("end")
        elif after == "changed":
            t.tln("fin")
    v = lib.run([("x", test)]).of("x")
    ctx.observe("verdict", v)
    ctx.check(called in ([], [1]), "the measured function ran %d times" % len(called))
    ctx.check(v == ("DIFF" if after == "changed" else "OK"), lambda: "%s with old line %r" % (v, old))


def one_between(ctx, ilen, ialpha):
    """an arbitrary old text under an arbitrary information text, tested lines around it"""
    a, b = ctx.text("a", ilen, ialpha), ctx.text("b", ilen, ialpha)
    x, y = ctx.char("x", "a1"), ctx.char("y", "a1")
    mixed = ctx.flag("mixed")
    pre = "k:" if mixed else ""
    lib.write("books/x.md", "begin\n" + pre + b + "\n" + y + "\n")

    def test(t):
        t.tln("begin")
        t.t(pre)
        t.iln(a)
        t.tln(x)
    v = lib.run([("x", test)]).of("x")
    ctx.observe("verdict", v)
    ctx.check(v == ("OK" if ctx.eq(x, y) else "DIFF"), lambda: "%s for %r over %r, %r over %r" % (v, a, b, x, y))


def unfinished(ctx, ilen, ialpha):
    """an information text without line end is the last thing written"""
    a, b = ctx.text("a", ilen, ialpha), ctx.text("b", ilen, ialpha)
    ctx.assume(len(a) > 0)
    mixed = ctx.flag("mixed")
    pre = "k:" if mixed else ""
    lib.write("books/x.md", "begin\n" + pre + b + ctx.choice("line end", ["\n", ""]))

    def test(t):
        t.tln("begin")
        t.t(pre)
        t.i(a)
    v = lib.run([("x", test)]).of("x")
    ctx.observe("verdict", v)
    ctx.check(v == "OK", lambda: "%s for %r over %r" % (v, a, b))


HARNESSES = [
    Harness("lines", lines_between, dict(n=3, tlen=1, ilen=1, talpha="a1", ialpha="a ."),
            dict(n=4, tlen=1, ilen=1, talpha="a1", ialpha="a ."),
            bounds="3 (4) lines, each tested, untested or mixed, one-character texts", witness=("same", "different")),
    Harness("texts", lines_between, dict(n=2, tlen=1, ilen=(0, 1), talpha=LINE, ialpha=LINE),
            dict(n=3, tlen=1, ilen=(0, 1), talpha=LINE, ialpha=LINE),
            bounds="2 (3) lines, arbitrary texts of up to 1 character on both sides", witness=("same", "different")),
    Harness("between", one_between, dict(ilen=(0, 2), ialpha=LINE), dict(ilen=(0, 3), ialpha=LINE),
            bounds="one information line of up to 2 (3) arbitrary characters on both sides"),
    Harness("unfinished", unfinished, dict(ilen=(0, 2), ialpha=charset("a. 1")), dict(ilen=(0, 2), ialpha=LINE),
            bounds="an unfinished last information text of up to 2 characters over another"),
    Harness("measures", measures, dict(olen=2, alphabet="1.-n \u00b2\u0661"), dict(olen=4, alphabet="15.-+einf \u00b2\u0661"),
            bounds="every measuring operation, of up to a year, against an arbitrary old line of up to 2 (4) characters"),
    Harness("words", measures, dict(olen=1, alphabet="1 n", starts=("inf", "nan", "infinity", "1e999", "9" * 400, "1e"), ops=("ifloatln", "tmsln")),
            bounds="against old lines that start like numbers of unusual form"),
    Harness("large", large.untested, dict(sizes=[(1100, 9), (100, 40), (3, 3000)]),
            dict(sizes=[(2200, 9), (300, 40), (3, 5000)]),
            bounds="1100 short or 100 long untested lines, or lines of 3000 characters, with one changed place", timeout=120, witness=("done",)),
]
