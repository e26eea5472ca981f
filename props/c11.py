"""C11 Selection picks exactly the named cases and subtrees"""
from sx.ctx import Harness
from sx.core import ALL_UNICODE, charset
from props import lib, large
import booktest as bt

ASSUMPTIONS = ["names and entries are slash separated paths without empty components, as the command line accepts them"]
NAME = ALL_UNICODE.minus(charset("\r\n"))


def is_path(ctx, s):
    """neither empty nor with an empty component"""
    ctx.assume(len(s) > 0 and s[0] != "/" and s[len(s) - 1] != "/")
    for i in range(len(s) - 1):
        ctx.assume(not ctx.all([ctx.eq(s[i], "/"), ctx.eq(s[i + 1], "/")]))


def under(ctx, name, top):
    """name is top or lies below it"""
    if len(name) < len(top):
        return False
    same = [ctx.eq(name[i], top[i]) for i in range(len(top))]
    if len(name) > len(top):
        same.append(ctx.eq(name[len(top)], "/"))
    return ctx.all(same)


def entries(ctx, nsel, slen, alphabet, nlen):
    """is_selected on arbitrary names and entries"""
    name = ctx.text("name", (1, nlen), alphabet)
    is_path(ctx, name)
    k = ctx.pick("entries", nsel + 1)
    sel = []
    plain, skip = [], []
    for i in range(k):
        if ctx.flag("star%d" % i):
            sel.append("*")
            plain.append(True)
            continue
        s = ctx.text("s%d" % i, (1, slen), alphabet)
        is_path(ctx, s)
        if ctx.flag("skip%d" % i):
            sel.append("skip:" + s)
            skip.append(under(ctx, name, s))
        else:
            sel.append(s)
            ctx.assume(not ctx.eq(s, "*"))
            plain.append(under(ctx, name, s))
    got = bt.Tests([]).is_selected(name, sel)
    ctx.observe("selected", bool(got))
    want = ctx.all([not ctx.any(skip), ctx.any(plain) if plain else True])
    ctx.reach("selected" if got else "not selected")
    ctx.check(ctx.iff(bool(got), want), lambda: "is_selected(%r, %r) is %r" % (name, sel, got))


CASES = ["a/b", "a/b/c", "ab", "a/bc", "b"]


TOPS = ["*", "a", "a/b", "a/b/c", "ab", "a/bc", "b"]


def command(ctx, nsel, via, tops=TOPS):
    """entries given on the command line or as default tests, seen in the list and in what runs"""
    sel = []
    for i in range(nsel):
        e = ctx.choice("e%d" % i, [None] + tops)
        if e is not None:
            skip = e != "*" and ctx.flag("skip%d" % i)
            sel.append("skip:" + e if skip else e)
    how = ctx.choice("via", via)
    ran = []

    def make(n):
        def test(t):
            ran.append(n)
            t.tln(n)
        return test
    args = list(sel)
    if how == "default":
        ctx.assume(len(sel) > 0)
        lib.write(".booktest", "default_tests=" + ",".join(sel) + "\n")
        args = []
    elif len(sel) == 0:
        lib.write(".booktest", "default_tests=*\n")
    cases = [(n, make(n)) for n in CASES]
    want = []
    for n in CASES:
        plain = [e for e in sel if not e.startswith("skip:")]
        skips = [e[5:] for e in sel if e.startswith("skip:")]
        parts = n.split("/")
        tops_of = ["/".join(parts[:i + 1]) for i in range(len(parts))]
        if not any([s in tops_of for s in skips]) and (len(plain) == 0 or any([s == "*" or s in tops_of for s in plain])):
            want.append(n)
    rc, text = lib.main(cases, ["-l"] + args)
    ctx.check([l.strip() for l in lib.lines(text)] == want, lambda: "-l %r lists %r instead of %r" % (sel, text, want))
    ctx.check(ran == [], "listing runs tests")
    lib.main(cases, args)
    ctx.reach("some" if 0 < len(want) < len(CASES) else "all or none")
    ctx.check(ran == want, lambda: "%r (%s) runs %r instead of %r" % (sel, how, ran, want))


HARNESSES = [
    Harness("entries", entries, dict(nsel=2, slen=3, nlen=4, alphabet="ab/"),
            dict(nsel=3, slen=4, nlen=5, alphabet="ab/"),
            bounds="names of up to 4 (5), up to 2 (3) entries of up to 3 (4) characters", witness=("selected", "not selected")),
    Harness("unicode", entries, dict(nsel=1, slen=4, nlen=5, alphabet=NAME),
            dict(nsel=2, slen=4, nlen=5, alphabet=NAME),
            bounds="1 (2) entries of any characters, also ':' and '*'", witness=("selected", "not selected")),
    Harness("command", command, dict(nsel=2, via=["arguments", "default"]), dict(nsel=3, via=["arguments", "default"]),
            bounds="2 (3) entries over five nested cases", witness=("some", "all or none")),
    Harness("several", command, dict(nsel=3, via=["arguments"], tops=["a/b", "ab", "b"]),
            dict(nsel=4, via=["arguments", "default"], tops=["a", "a/b", "ab", "b"]),
            bounds="3 (4) entries, any of which skip, in any order", witness=("some", "all or none")),
    Harness("large", large.selection, dict(n=60),
            dict(n=300),
            bounds="one, several, a directory or all but some of 60 cases", timeout=120, witness=("one", "directory", "skip", "all but some", "many")),
]
