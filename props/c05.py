"""C05 The output file is exactly what the test wrote"""
import os
from sx.ctx import Harness
from sx.core import ALL_UNICODE, charset
from props import lib, ops, large

TEXT = ALL_UNICODE.minus(charset("\r"))
LINE = ALL_UNICODE.minus(charset("\r\n"))
ALLOPS = [o.name for o in ops.OPS]
ASSUMPTIONS = ["measurements (which print the old value) are left out", "no carriage returns (known finding of C02)"]


def content(ctx, n, names, tlen, alphabet, shared, snaps):
    """the output of n operations over an arbitrary old snapshot and old output"""
    if shared:
        x = ctx.text("x", tlen, alphabet)
        prog = ops.program(ctx, n, names, lambda name: x)
    else:
        prog = ops.program(ctx, n, names, lambda name: ctx.text(name, tlen, alphabet))
    log = ops.logged(prog)
    snap = ctx.choice("snap", snaps)
    if snap is not None:
        lib.write("books/x.md", snap)
    lib.write("books/.out/x.md", "left over\n" * 5)
    lib.write("books/.out/x.txt", "left over\n" * 5)
    ending = ctx.choice("ending", ["", "fail", "diff"])

    def test(t):
        ops.runner(prog)(t)
        if ending == "fail":
            t.fail()
        elif ending == "diff":
            t.diff()
    r = lib.run([("x", test)])
    out = lib.read("books/.out/x.md")
    ctx.observe("out", out)
    ctx.check(out is not None and ctx.eq(out, log.file()), lambda: "wrote %r, the file has %r" % (log.file(), out))
    if snap is not None:
        ctx.check(ctx.eq(lib.read("books/x.md"), snap), "the snapshot changed")
    rep = lib.lines(lib.read("books/.out/x.txt"))
    want = lib.lines(log.file())
    if ending != "" and not log.midline():
        # the mark stands on a line of its own at the end
        want = want + [""]
    elif prog[-1][0].name == "tset" and len(rep) == len(want) + 1:
        # so does the mark for items missing from a set at the end
        ctx.check(rep[-1][0] == "?", "an extra report line without a mark")
        want = want + [""]
    ctx.check(len(rep) == len(want), lambda: "%d report lines for %d output lines" % (len(rep), len(want)))
    for k in range(len(want)):
        ctx.check(rep[k][0] in " ?!" and ctx.eq(rep[k][2:2 + len(want[k])], want[k]),
                  lambda: "report line %r for output line %r" % (rep[k], want[k]))
        if ending == "fail" and k == len(want) - 1:
            ctx.check(rep[k][0] == "!", "no mark for the failure")


def markers(ctx, n, tlen, alphabet):
    """the marker and the old line of every report line"""
    m = ctx.int("old lines", 0, n)
    old = [ctx.text("b%d" % k, tlen, alphabet) for k in range(int(m))]
    new = []
    for k in range(n):
        new.append((ctx.choice("kind%d" % k, ["tested", "info", "failed", "failed info", "marked"]),
                    ctx.text("a%d" % k, tlen, alphabet)))
    lib.write("books/x.md", "".join([l + "\n" for l in old]))
    verbose = ctx.flag("verbose")
    pos = ctx.flag("point")

    def test(t):
        for kind, a in new:
            if kind == "tested":
                t.tln(a)
            elif kind == "info":
                t.iln(a)
            elif kind == "failed":
                t.fail().tln(a)
            elif kind == "failed info":
                t.i(a).fail().iln()
            else:
                t.diff().iln(a)
    r = lib.run([("x", test)], {"verbose": verbose, "point_error_pos": pos})
    rep = lib.lines(lib.read("books/.out/x.txt"))
    k = 0
    shown = []
    for j, (kind, a) in enumerate(new):
        o = old[j] if j < len(old) else None
        differs = kind == "marked" or kind in ("tested", "failed") and not (o is not None and ctx.eq(a, o))
        mark = "!" if kind in ("failed", "failed info") else "?" if differs else " "
        want = mark + " " + (a if mark == " " else a + " " * (60 - len(a)) + " | " + ("EOF" if o is None else o))
        ctx.check(k < len(rep) and ctx.eq(rep[k], want), lambda: "report line %r instead of %r" % (rep[k:k + 1], want))
        shown.append(want)
        k += 1
        if pos and mark != " ":
            ctx.check(rep[k].strip() == "^", lambda: "no pointer but %r" % rep[k])
            shown.append(rep[k])
            k += 1
    ctx.check(k == len(rep), "more report lines")
    ctx.observe("report", rep)
    if verbose:
        at = 0
        printed = lib.lines(r.text)
        for l in shown:
            while at < len(printed) and not ctx.eq(printed[at], l):
                at += 1
            ctx.check(at < len(printed), lambda: "%r is not printed" % l)
            at += 1


HARNESSES = [
    Harness("one", content, dict(n=1, names=ALLOPS, tlen=(0, 2), alphabet=TEXT, shared=False, snaps=[None, "a\nb\n"]),
            dict(n=1, names=ALLOPS, tlen=(0, 3), alphabet=TEXT, shared=False, snaps=[None, "", "a\nb\n"]),
            bounds="every operation with a text of up to 2 (3) characters"),
    Harness("two", content, dict(n=2, names=ALLOPS, tlen=1, alphabet=TEXT, shared=True, snaps=["x1\n\n# 1\n * 1"]),
            dict(n=3, names=ALLOPS, tlen=1, alphabet=TEXT, shared=True, snaps=[None, "x1\n\n# 1\n * 1"]),
            bounds="every pair (triple) of operations with one shared character"),
    Harness("markers", markers, dict(n=2, tlen=1, alphabet="a1 "), dict(n=3, tlen=1, alphabet="a1 "),
            bounds="2 (3) lines of every kind against up to as many old lines"),
    Harness("blank", markers, dict(n=1, tlen=(0, 2), alphabet="a1 "), dict(n=2, tlen=(0, 1), alphabet="a1 "),
            bounds="one line (two) of every kind of up to two characters (one) against none or another"),
    Harness("large", large.lines, dict(sizes=[(1100, 9), (100, 40), (3, 3000)], what="output"),
            dict(sizes=[(2200, 9), (300, 40), (3, 5000)], what="output"),
            bounds="pages of 1100 short or 100 long lines, and of lines of 3000 characters, with one changed place", timeout=120, witness=("same", "different")),
]
