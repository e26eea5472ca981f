"""C07 Sections compare with the snapshot section that has the same anchor"""
import itertools
from sx.ctx import Harness
from sx.core import ALL_UNICODE, charset
from props import lib, ops, large

LINE = ALL_UNICODE.minus(charset("\r\n"))
ASSUMPTIONS = ["information lines before a header may be more or fewer, but not vanish: the snapshot does not tell them from "
               "tested lines that are missing",
               "anchors are distinct, none of them is a body line, and no key is the beginning of another",
               "bodies have the same number of lines on both sides"]

KINDS = {
    "h1": (lambda t, n: t.h1(n), lambda n: "# " + n, True),
    "h2": (lambda t, n: t.h2(n), lambda n: "## " + n, True),
    "h3": (lambda t, n: t.h3(n), lambda n: "### " + n, True),
    "h": (lambda t, n: t.h(5, n), lambda n: "##### " + n, True),
    "header": (lambda t, n: t.header(n), lambda n: n, True),
    "anchorln": (lambda t, n: t.anchorln("[" + n), lambda n: "[" + n, False),
}


def snapshot_text(order, headers, info, bodies, blank):
    """the snapshot of sections written in this order"""
    out = []
    for k, i in enumerate(order):
        out += info[k]
        if blank and len(out) > 0:
            out.append("")
        out.append(headers[i])
        if blank:
            out.append("")
        out += bodies[i]
    return "".join([l + "\n" for l in out])


def sections(ctx, n, kinds, hlen, halpha, balpha, infos, nbody, missing=True):
    kind = ctx.choice("kind", kinds)
    write, text, blank = KINDS[kind]
    names = [ctx.text("h%d" % i, hlen, halpha) for i in range(n)]
    for i in range(n):
        for j in range(i):
            ctx.assume(not ctx.eq(names[i], names[j]))
    orders = list(itertools.permutations(range(n)))
    order = ctx.choice("order", orders)
    old = [["=" + ctx.char("b%d.%d" % (i, j), balpha) for j in range(nbody)] for i in range(n)]
    new = [["=" + ctx.char("a%d.%d" % (i, j), balpha) for j in range(nbody)] for i in range(n)]
    inew = [["info %d" % i] * ctx.choice("info new %d" % i, infos) for i in range(n)]
    iold = [["info %d" % i] * ctx.choice("info old %d" % i, infos) for i in range(n)]
    gone = ctx.pick("missing", n + 1) - 1 if missing else -1
    lacking = [i for i in range(n) if i != gone]
    lib.write("books/x.md", snapshot_text(lacking, [text(x) for x in names], iold, old, blank))

    def test(t):
        for k, i in enumerate(order):
            for l in inew[k]:
                t.iln(l)
            write(t, names[i])
            for l in new[i]:
                t.tln(l)
    v = lib.run([("x", test)]).of("x")
    ctx.observe("verdict", v)
    same = gone < 0 and all([bool(ctx.eq(new[i], old[i])) for i in range(n)])
    ctx.reach("same" if same else "different")
    want = "OK" if same else "DIFF"
    if same and blank and n > 1:
        # a line of the snapshot that is not written any more is a difference: it may have been a tested one
        for k in range(1, n):
            i = order[k - 1]
            follow = iold[i + 1] if i + 1 < n else []
            ctx.assume(not (len(inew[k]) == 0 and len(follow) > 0))
    ctx.check(v == want, lambda: "%s instead of %s: sections %r of %r, old bodies %r, new %r, missing %d" %
              (v, want, order, names, old, new, gone))


def keys(ctx, n, alpha, style, noise, valpha, klen=1):
    """key-value lines in any order, with untested lines between them"""
    ks = [ctx.text("k%d" % i, klen, alpha) for i in range(n)]
    for i in range(n):
        for j in range(i):
            ctx.assume(not ctx.eq(ks[i], ks[j]))
    order = ctx.choice("order", list(itertools.permutations(range(n))))
    how = ctx.choice("how", style)
    old = [ctx.char("b%d" % i, valpha) for i in range(n)]
    new = [ctx.char("a%d" % i, valpha) for i in range(n)]
    between = ctx.choice("between", noise)
    junk = ctx.choice("junk", noise)
    gone = ctx.pick("missing", n + 1) - 1
    snap = []
    for i in range(n):
        if i != gone:
            snap += ["junk"] * junk + [ks[i] + ": " + old[i]]
    lib.write("books/x.md", "".join([l + "\n" for l in snap]))

    def test(t):
        for i in order:
            for _ in range(between):
                t.iln("between")
            if how == "keyvalueln":
                t.keyvalueln(ks[i] + ":", new[i])
            elif how == "anchor":
                t.anchor(ks[i] + ":").t(" ").tln(new[i])
            else:
                t.anchor(ks[i] + ":").iln(" whatever")
    v = lib.run([("x", test)]).of("x")
    ctx.observe("verdict", v)
    same = gone < 0 and (how == "info" or all([bool(ctx.eq(new[i], old[i])) for i in range(n)]))
    ctx.reach("same" if same else "different")
    ctx.check(v == ("OK" if same else "DIFF"), lambda: "%s for keys %r in order %r, old %r, new %r, missing %d" %
              (v, ks, order, old, new, gone))


ALL = list(KINDS)
HARNESSES = [
    Harness("sections", sections,
            dict(n=3, kinds=["h1", "anchorln"], hlen=1, halpha="ab1", balpha="xy", infos=[0], nbody=1),
            dict(n=4, kinds=["h1", "anchorln"], hlen=1, halpha="ab1c", balpha="xy", infos=[0], nbody=1),
            bounds="3 (4) sections in every order", witness=("same", "different")),
    Harness("info", sections,
            dict(n=2, kinds=["h1", "anchorln"], hlen=1, halpha="ab", balpha="xy", infos=[0, 1, 2], nbody=1),
            dict(n=3, kinds=["h1", "anchorln"], hlen=1, halpha="abc", balpha="xy", infos=[0, 1, 2], nbody=1),
            bounds="2 (3) sections, 0 to 2 information lines before each on either side", witness=("same", "different")),
    Harness("headers", sections,
            dict(n=2, kinds=ALL, hlen=(1, 2), halpha="a1 #", balpha="xy", infos=[0], nbody=1, missing=False),
            dict(n=2, kinds=ALL, hlen=(1, 2), halpha=LINE, balpha="xy1", infos=[0], nbody=2),
            bounds="2 sections, header texts of 1 to 2 characters (one may be the beginning of the other)",
            witness=("same", "different")),
    Harness("unicode", sections,
            dict(n=2, kinds=["h1", "header"], hlen=1, halpha=LINE, balpha="xy", infos=[0], nbody=1, missing=False),
            dict(n=2, kinds=ALL, hlen=1, halpha=LINE, balpha=LINE, infos=[0], nbody=1, missing=False),
            bounds="2 sections, any character as header text", witness=("same", "different")),
    Harness("keys", keys, dict(n=3, alpha="ab1", style=["keyvalueln", "anchor", "info"], noise=[0, 2], valpha="xy"),
            dict(n=4, alpha="ab1c", style=["keyvalueln", "anchor", "info"], noise=[0, 1, 2], valpha="xy1"),
            bounds="3 (4) keys in every order", witness=("same", "different")),
    Harness("indent", keys, dict(n=2, alpha=" a", style=["keyvalueln", "anchor"], noise=[0], valpha="xy", klen=(1, 2)),
            bounds="2 keys of one or two characters, also blanks, in either order", witness=("same", "different")),
    Harness("large", large.sections, dict(n=220, shifts=[0, 1, 215]),
            dict(n=400, shifts=[0, 1, 200, 399]),
            bounds="220 (400) sections, rotated, with one changed place", timeout=120, witness=("same", "different")),
]
