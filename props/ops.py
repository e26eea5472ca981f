"""Output operations of a test as data: how to run one and which text it must produce."""
import booktest as bt


def T(t, a):
    t.t(a[0])


def table_text(rows):
    """what a table of one column "c" looks like, cell by cell: [(text, tested)]"""
    cells = [str(r) for r in rows]
    w = max([1] + [len(c) for c in cells])
    out = [("|c".ljust(w + 1) + "|\n", False), ("|" + "-" * w + "|\n", True)]
    for c in cells:
        b = c.replace("\r", " ").replace("\n", " ").strip()
        out += [("|", True), (b, True), (" " * (w - len(b)), False), ("|", True), ("\n", True)]
    return out


class Log:
    """the texts written so far, as the documentation of each operation says: pieces (text, tested)"""

    def __init__(self):
        self.pieces = []

    def add(self, text, tested=True):
        self.pieces.append((text, tested))

    def nlines(self):
        return sum(p[0].count("\n") for p in self.pieces)

    def text(self):
        return "".join([p[0] for p in self.pieces])

    def midline(self):
        t = self.text()
        return t != "" and t[-1] != "\n"

    def file(self):
        """content of the output file: an unfinished last line is finished"""
        t = self.text()
        return t + "\n" if t != "" and t[-1] != "\n" else t

    def header(self, text):
        if self.nlines() > 0:
            self.add("\n")
        self.add(text)
        self.add("\n")
        self.add("")
        self.add("\n")


class Op:
    def __init__(self, name, run, text, texts=1, anchor=False):
        self.name, self.run, self.text, self.texts, self.anchor = name, run, text, texts, anchor


def frame(cols):
    """a real data frame (the cells may be symbolic texts: it keeps them as they are)"""
    import pandas as pd
    return pd.DataFrame(cols, dtype=object)


def op_image(t, a):
    p = t.file("i.png")
    with open(p, "w") as f:
        f.write("x")
    t.timage(p, a[0])
    # named after the file
    t.timage(p)


def log_it(log, a):
    log.header("## " + a[0] + "..")
    log.add(" * MUST have " + a[0] + "...", False)
    log.add("ok", False)
    log.add("\n", False)


def log_set(log, a):
    for x in a:
        log.add(" * " + x, False)
        log.add("\n", False)


def log_list(log, a):
    for x in a:
        log.add(" * " + x)
        log.add("\n")


def seq(*steps):
    """a text logger: steps are (text or index of an argument, tested)"""
    def f(log, a):
        for s, tested in steps:
            log.add(a[s] if isinstance(s, int) else s, tested)
    return f


OPS = [
    Op("t", lambda t, a: t.t(a[0]), seq((0, True))),
    Op("tln", lambda t, a: t.tln(a[0]), seq((0, True), ("\n", True))),
    Op("i", lambda t, a: t.i(a[0]), seq((0, False))),
    Op("iln", lambda t, a: t.iln(a[0]), seq((0, False), ("\n", False))),
    Op("h1", lambda t, a: t.h1(a[0]), lambda log, a: log.header("# " + a[0]), anchor=True),
    Op("h", lambda t, a: t.h(4, a[0]), lambda log, a: log.header("#### " + a[0]), anchor=True),
    Op("anchor", lambda t, a: t.anchor(a[0]), seq((0, True)), anchor=True),
    Op("anchorln", lambda t, a: t.anchorln(a[0]), seq((0, True), ("\n", True)), anchor=True),
    Op("keyvalueln", lambda t, a: t.keyvalueln("k" + a[0], a[0]),
       lambda log, a: [log.add("k" + a[0]), log.add(" " + a[0]), log.add("\n")], anchor=True),
    Op("tlist", lambda t, a: t.tlist([a[0], "z"]), lambda log, a: log_list(log, [a[0], "z"])),
    Op("tset", lambda t, a: t.tset([a[0], "zz"]), lambda log, a: log_set(log, [a[0], "zz"]), anchor=True),
    Op("tdf", lambda t, a: t.tdf(frame({"c": [a[0], 1]})),
       lambda log, a: [log.add(x, y) for x, y in table_text([a[0], 1])]),
    Op("timage", op_image, lambda log, a: [log.add("![" + a[0] + "](x/i.png)"), log.add("\n"), log.add("![i](x/i.png)"), log.add("\n")]),
    Op("assertln", lambda t, a: t.assertln(True), seq(("ok", False), ("\n", False)), texts=0),
    Op("it", lambda t, a: t.it(a[0], [a[0]]).must_contain(a[0]), log_it, anchor=True),
    Op("tformat", lambda t, a: t.tformat({a[0]: [1, a[0]]}),
       lambda log, a: [log.add(format_text(a[0])), log.add("\n")]),
]


def format_text(key):
    import json
    return json.dumps({key: ["int", "str"]}, indent=2)


BY = {o.name: o for o in OPS}


def program(ctx, n, names, textfn):
    """n operations, each one of `names`, with texts made by textfn(name)"""
    prog = []
    for k in range(n):
        op = BY[ctx.choice("op%d" % k, names)]
        a = [textfn("x%d.%d" % (k, j)) for j in range(op.texts)]
        if op.name == "tformat":
            ctx.assume(ctx.all([ctx.inset(c, "a1 .-\"") for c in a[0]]))
        prog.append((op, a))
    return prog


def runner(prog):
    def test(t):
        for op, a in prog:
            op.run(t, a)
    return test


def logged(prog):
    log = Log()
    for op, a in prog:
        op.text(log, a)
    return log


def tokens(text):
    from booktest.tokenizer import TestTokenizer
    return list(TestTokenizer(text))


def joined(log):
    """do two writes meet inside a token of the line they make?"""
    lines = [[]]
    for text, tested in log.pieces:
        parts = text.split("\n")
        for k, p in enumerate(parts):
            if k > 0:
                lines.append([])
            if p != "":
                lines[-1].append(p)
    for l in lines:
        if len(l) > 1:
            # only the places where two pieces meet matter
            per = []
            for p in l:
                per += tokens(p)
            if len(per) != len(tokens("".join(l))):
                return True
    return False
