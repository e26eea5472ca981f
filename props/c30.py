"""C30 Type formats show structure and never values"""
import json
from collections import OrderedDict
from sx.ctx import Harness
from sx.core import charset, ALL_UNICODE
from props import lib, large
import booktest as bt
from booktest import value_format

ASSUMPTIONS = ["keys are texts, numbers, booleans or None that JSON tells apart; lists and dictionaries are the built-in types, everything else is a scalar"]
# no digits: the key 1 is "1" in JSON
KEYS = charset("".join(chr(c) for c in range(32, 127) if not chr(c).isdigit()))


class Thing:
    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "Thing(%s)" % self.v


class Dict(dict):
    pass


SCALARS = {"str": lambda v: v, "int": lambda v: len(v) + 41, "float": lambda v: 0.5, "bool": lambda v: True, "NoneType": lambda v: None,
           "bytes": lambda v: v.encode("utf-8"), "tuple": lambda v: (v, 1), "Thing": Thing, "Dict": lambda v: Dict(k=v), "set": lambda v: {v},
           "OrderedDict": lambda v: OrderedDict(k=v), "type": lambda v: type(v), "symbolic int": None}


class Gen:
    """builds pairs of values of one structure whose scalars differ, and the structure"""

    def __init__(self, ctx, scalars, alphabet, keys, nitems):
        self.ctx, self.scalars, self.alphabet, self.keys, self.nitems = ctx, scalars, alphabet, keys, nitems
        self.n = 0

    def make(self, depth):
        ctx = self.ctx
        self.n += 1
        me = "v%d" % self.n
        kind = ctx.choice(me, (["list", "dict"] if depth > 0 else []) + ["scalar"])
        if kind == "scalar":
            s = ctx.choice(me + " type", self.scalars)
            if s == "symbolic int":
                return ctx.int(me + " a", -100, 100), ctx.int(me + " b", -100, 100), "int"
            # the second one may be longer
            a, b = ctx.text(me + " a", 1, self.alphabet), ctx.text(me + " b", (1, 2), self.alphabet)
            return SCALARS[s](a), SCALARS[s](b), s
        n = ctx.pick(me + " length", self.nitems + 1)
        if kind == "list":
            items = [self.make(depth - 1) for _ in range(n)]
            return [i[0] for i in items], [i[1] for i in items], [i[2] for i in items]
        a, b, w = {}, {}, {}
        for i in range(n):
            k = ctx.choice(me + " key%d" % i, self.keys)
            if k == "char":
                k = ctx.char(me + " char%d" % i, KEYS)
                if len(w):
                    ctx.assume(ctx.all([not isinstance(o, str) or len(o) != 1 or not ctx.eq(o, k) for o in w]))
            ctx.assume(k not in w)
            x = self.make(depth - 1)
            a[k], b[k], w[k] = x
        return a, b, w


def same(ctx, a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        return ctx.all([ctx.all([ctx.eq(x, y), same(ctx, a[x], b[y])]) for x, y in zip(a, b)])
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and ctx.all([same(ctx, x, y) for x, y in zip(a, b)])
    if isinstance(a, str) and isinstance(b, str):
        return ctx.eq(a, b)
    return type(a) is type(b) and a == b


def jsonkeys(x):
    if isinstance(x, dict):
        return {k if isinstance(k, str) else json.dumps(k): jsonkeys(v) for k, v in x.items()}
    if isinstance(x, list):
        return [jsonkeys(i) for i in x]
    return x


def formats(ctx, depth, scalars, alphabet, keys, nitems):
    """any structure with any scalars"""
    a, b, want = Gen(ctx, scalars, alphabet, keys, nitems).make(depth)
    fa, fb = value_format(a), value_format(b)
    ctx.check(same(ctx, fa, fb), lambda: "formats %r and %r of values that differ in scalars only" % (fa, fb))
    ctx.check(same(ctx, fa, want), lambda: "format %r instead of %r" % (fa, want))
    which = [a]

    def f(t):
        t.tformat(which[0])
    r = lib.run([("x", f)], {"accept": True})
    text = lib.read("books/.out/x.md") or lib.read("books/x.md")
    text = lib.read("books/x.md")
    ctx.check(text is not None, lambda: "no snapshot: %s" % r.text)
    try:
        got = json.loads(text)
    except ValueError:
        got = None
    ctx.check(got is not None and same(ctx, got, jsonkeys(want)), lambda: "printed %r for the structure %r" % (text, want))
    which[0] = b
    r = lib.run([("x", f)])
    ctx.check(ctx.eq(lib.read("books/.out/x.md"), text), lambda: "the text depends on scalars: %r, %r" % (text, lib.read("books/.out/x.md")))
    ctx.check(r.of("x") == "OK", lambda: "verdict %s" % r.of("x"))
    ctx.reach("scalar" if isinstance(want, str) else "structure")


S = list(SCALARS)
HARNESSES = [
    Harness("scalars", formats, dict(depth=0, scalars=S, alphabet=ALL_UNICODE.minus(charset("\x00")), keys=["k"], nitems=0),
            bounds="thirteen types of scalars with any one or two characters", witness=("scalar",)),
    Harness("nested", formats, dict(depth=2, scalars=["str", "symbolic int"], alphabet=charset("ab"), keys=["k", "l"], nitems=2),
            bounds="nesting of two, up to two entries", witness=("structure",)),
    Harness("keys", formats, dict(depth=1, scalars=["str", "NoneType"], alphabet=charset("ab\""), keys=["char", "key two", 1, None, True], nitems=2),
            dict(depth=2, scalars=["str"], alphabet=charset("ab\""), keys=["char", "key two", 1], nitems=2),
            bounds="keys of any character and of other types", witness=("structure",)),
    Harness("large", large.formats, dict(depth=25, width=200),
            dict(depth=100, width=2000),
            bounds="values 25 deep and 200 wide", timeout=120, witness=("done",)),
]
