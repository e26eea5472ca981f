"""C02 Accepting a result and re-running the same test gives OK"""
from sx.ctx import Harness
from sx.core import ALL_UNICODE, charset
from props import lib, ops, large

TEXT = ALL_UNICODE.minus(charset("\r"))
ALLOPS = [o.name for o in ops.OPS]
ASSUMPTIONS = [
    "sets have distinct items of one line each",
    "tests are called x; images are files of the test's own directory",
]


def accept_and_rerun(ctx, prog, log, finding):
    fn = ops.runner(prog)
    r1 = lib.run([("x", fn)], {"accept": True})
    ctx.check(r1.of("x") == "OK", lambda: "first run, accepting: %s" % r1.of("x"))
    snap = lib.read("books/x.md")
    tree1 = {k: v for k, v in lib.tree("books").items() if not k.startswith(".out") and k != "index.md"}
    r2 = lib.run([("x", fn)], {"accept": False})
    ctx.observe("verdicts", [r1.of("x"), r2.of("x")])
    ctx.check(r2.of("x") == "OK", lambda: "%s after accepting %r" % (r2.of("x"), snap), finding=finding)
    out = lib.read("books/.out/x.md")
    ctx.check(out is not None and ctx.eq(out, snap), lambda: "second output %r is not the accepted %r" % (out, snap))
    r3 = lib.run([("x", fn)], {"accept": True})
    ctx.check(r3.of("x") == "OK", "third run")
    tree2 = {k: v for k, v in lib.tree("books").items() if not k.startswith(".out") and k != "index.md"}
    ctx.check(ctx.eq(tree1, tree2), "accepting again changed the snapshot files")


def sets_ok(ctx, prog):
    for op, a in prog:
        if op.name == "tset" and ("\n" in a[0] or a[0] == "zz"):
            return False
    return True


def finding_of(ctx, prog, log):
    if ops.joined(log):
        return "C02-joined"
    for k, (op, a) in enumerate(prog):
        if op.name == "tset":
            if ops.logged(prog[:k]).midline():
                return "C02-set-midline"
            before, both = ops.logged(prog[:k + 1]).text(), log.text()
            if both[len(before):].startswith(" * "):
                return "C02-set-then-item"
    return None


def mix(ctx, n, names, tlen, alphabet, shared=False):
    """a sequence of output operations with arbitrary texts"""
    if shared:
        x = ctx.text("x", tlen, alphabet)
        textfn = lambda name: x
    else:
        textfn = lambda name: ctx.text(name, tlen, alphabet)
    prog = ops.program(ctx, n, names, textfn)
    ctx.assume(sets_ok(ctx, prog))
    log = ops.logged(prog)
    accept_and_rerun(ctx, prog, log, finding_of(ctx, prog, log))


def carriage(ctx):
    """one operation with a text around a carriage return"""
    op = ops.BY[ctx.choice("op", ["t", "tln", "tlist", "tset", "iln", "i"])]
    pre = ctx.text("pre", (0, 1), "ab")
    post = ctx.text("post", (0, 1), "ab\n")
    a = [pre + "\r" + post]
    log = ops.logged([(op, a)])
    accept_and_rerun(ctx, [(op, a)], log, "C02-cr")


HARNESSES = [
    Harness("one", mix, dict(n=1, names=ALLOPS, tlen=(0, 2), alphabet=TEXT),
            dict(n=1, names=ALLOPS, tlen=(0, 4), alphabet=TEXT), bounds="every operation with a text of up to 2 (4) characters"),
    Harness("two", mix, dict(n=2, names=ALLOPS, tlen=(0, 1), alphabet=TEXT),
            dict(n=2, names=ALLOPS, tlen=(0, 2), alphabet=TEXT), bounds="every pair of operations, texts of up to 1 (2) characters"),
    Harness("three", mix, dict(n=3, names=ALLOPS, tlen=1, alphabet="a1 \n.", shared=True),
            dict(n=4, names=ALLOPS, tlen=1, alphabet="a1 \n.", shared=True),
            bounds="every triple (quadruple) of operations with one shared symbolic text"),
    Harness("carriage", carriage, {}, {}, bounds="texts with one carriage return"),
    Harness("large", large.lines, dict(sizes=[(1100, 9), (100, 40), (3, 3000)], what="accept"),
            dict(sizes=[(2200, 9), (300, 40), (3, 5000)], what="accept"),
            bounds="pages of 1100 short or 100 long lines, and of lines of 3000 characters, with one changed place", timeout=120, witness=("same", "different")),
]
