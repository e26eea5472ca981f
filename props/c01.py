"""C01 Changed tested output is never judged OK; equal output always is"""
from sx.ctx import Harness
from sx.core import ALL_UNICODE, charset
from props import lib, large

TEXT = ALL_UNICODE.minus(charset("\r"))
LINE = ALL_UNICODE.minus(charset("\r\n"))

ASSUMPTIONS = ["carriage returns are left out here: they are the subject of a known finding of C02"]


def verdict(ctx, name, fn, config=None):
    r = lib.run([(name, fn)], config)
    v = r.of(name)
    ctx.check(v == {1: "OK", 2: "FAIL", 3: "DIFF"}[r.verdict.value], "the run's result is not its only case's verdict")
    return v


def expect(ctx, v, out, snap, exists):
    """the verdict for lines `out` against the snapshot lines `snap`"""
    if not exists:
        ctx.check(v == "DIFF", lambda: "%s without a snapshot" % v)
        return
    if bool(ctx.eq(out, snap)):
        ctx.check(v == "OK", lambda: "%s although the output equals the snapshot: %r" % (v, out))
    elif len(out) < len(snap) and bool(ctx.eq(out, snap[:len(out)])):
        ctx.reach("truncated")
        ctx.check(v == "DIFF", lambda: "%s although the snapshot has more lines: %r against %r" % (v, out, snap),
                  finding="C01-truncated")
    else:
        ctx.reach("different")
        ctx.check(v == "DIFF", lambda: "%s although %r differs from %r" % (v, out, snap))


def arbitrary(ctx, outlen, snaplen, alphabet):
    """an arbitrary text written in one go against an arbitrary snapshot"""
    exists = ctx.flag("exists")
    snap = ctx.text("snap", (0, snaplen), alphabet) if exists else ""
    out = ctx.text("out", (0, outlen), alphabet)
    if exists:
        lib.write("books/x.md", snap)

    def test(t):
        t.t(out)
    v = verdict(ctx, "x", test)
    ctx.observe("verdict", v)
    expect(ctx, v, lib.lines(out), lib.lines(snap), exists)


def same(ctx, nlen, alphabet):
    """the snapshot is the text that is written, however the text is cut at its line ends"""
    out = ctx.text("out", (1, nlen), alphabet)
    how = ctx.choice("how", ["t", "tln per line", "t per line"])
    end = ctx.flag("snapshot ends its last line")
    ls = lib.lines(out)
    snap = "\n".join(ls) + ("\n" if end else "")
    if ls and ls[-1] == "" and not end:
        ctx.assume(False)
    lib.write("books/x.md", snap)

    def test(t):
        if how == "t":
            t.t(out)
        elif how == "tln per line":
            for l in ls:
                t.tln(l)
        else:
            for l in ls[:-1]:
                t.t(l + "\n")
            t.t(ls[-1])
    v = verdict(ctx, "x", test)
    ctx.observe("verdict", v)
    ctx.check(v == "OK", lambda: "%s although the output equals the snapshot %r" % (v, snap))


def edited(ctx, nlen, alphabet):
    """the snapshot is the written text with one character replaced, removed or added"""
    snap = ctx.text("snap", (1, nlen), alphabet)
    kind = ctx.choice("kind", ["replace", "remove", "add"])
    at = ctx.pick("at", len(snap) + (1 if kind == "add" else 0))
    new = ctx.char("new", alphabet)
    per_line = ctx.flag("per line")
    if kind == "replace":
        out = snap[:at] + new + snap[at + 1:]
    elif kind == "remove":
        out = snap[:at] + snap[at + 1:]
    else:
        out = snap[:at] + new + snap[at:]
    lib.write("books/x.md", snap)
    ls = lib.lines(out)

    def test(t):
        if per_line:
            for l in ls:
                t.tln(l)
        else:
            t.t(out)
    v = verdict(ctx, "x", test)
    ctx.observe("verdict", v)
    expect(ctx, v, ls, lib.lines(snap), True)


LONG = ["alpha 12.50 beta-3 (x) " * 4 + "\nsecond line: 1e-5, +7 and -0.25\n\n\tindented  by  blanks\n" + "end " + "9" * 70 + "\n",
        "0.1000000001 0.1 1.0\n" + "w" * 130 + "\n" + "same\n" * 12 + "# head\n| a | b |\nlast 3.14159265358979"]


def longtext(ctx, alphabet, twice):
    """a long many-line text with one character replaced, removed or added anywhere"""
    snap = ctx.choice("base", LONG)
    kind = ctx.choice("kind", ["replace", "remove", "add"])
    n = len(snap)
    at = ctx.pick("at", n + (1 if kind == "add" else 0))
    new = ctx.char("new", alphabet) if kind != "remove" else ""
    if kind == "replace":
        ctx.assume(not ctx.eq(new, snap[at]))
    out = snap[:at] + new + (snap[at:] if kind == "add" else snap[at + 1:])
    snapfile = snap
    if twice:
        ctx.assume(kind == "replace")
        snapfile = snap[:n // 2] + "~" + snap[n // 2 + 1:]
        ctx.assume(at != n // 2)
    lib.write("books/x.md", snapfile)
    how = ctx.choice("how", ["t", "tln", "pieces"])

    def test(t):
        if how == "t":
            t.t(out)
        elif how == "tln":
            for l in lib.lines(out):
                t.tln(l)
        else:
            for l in lib.lines(out):
                for p in ops_tokens(l):
                    t.t(p)
                t.t("\n")
    v = verdict(ctx, "x", test)
    ctx.observe("verdict", v)
    expect(ctx, v, lib.lines(out), lib.lines(snapfile), True)


def ops_tokens(l):
    from booktest.tokenizer import TestTokenizer
    return list(TestTokenizer(l))


HARNESSES = [
    Harness("arbitrary", arbitrary, dict(outlen=2, snaplen=3, alphabet=TEXT), dict(outlen=4, snaplen=4, alphabet=TEXT),
            bounds="every output text and every snapshot text up to the given lengths, any Unicode character"),
    Harness("same", same, dict(nlen=4, alphabet=TEXT), dict(nlen=6, alphabet=TEXT),
            bounds="every text up to nlen characters, three ways of writing it"),
    Harness("edited", edited, dict(nlen=3, alphabet=TEXT), dict(nlen=5, alphabet=TEXT),
            bounds="every text up to nlen characters with every single-character edit",
            witness=("different", "truncated")),
    Harness("long", longtext, dict(alphabet="a1 .\n", twice=False), dict(alphabet=TEXT, twice=False),
            bounds="two texts of 300 characters with any single-character edit", witness=("different",)),
    Harness("large", large.lines, dict(sizes=[(1100, 9), (100, 40), (3, 3000)], what="verdict"),
            dict(sizes=[(2200, 9), (300, 40), (3, 5000)], what="verdict"),
            bounds="pages of 1100 short or 100 long lines, and of lines of 3000 characters, with one changed place", timeout=120, witness=("same", "different")),
]
