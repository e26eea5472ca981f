"""C31 Tables print every cell and test every cell"""
from sx.ctx import Harness
from sx.core import charset, ALL_UNICODE
from props import lib, large
import booktest as bt

ASSUMPTIONS = ["line ends and blanks around a cell's text are not part of it; the line with the column names is informational"]


def cell_text(v):
    return str(v).replace("\r", " ").replace("\n", " ").strip()


def expected(names, rows):
    widths = [max([len(str(n))] + [len(str(r[j])) for r in rows]) for j, n in enumerate(names)]
    out = ["|" + "".join([str(n).ljust(w) + "|" for n, w in zip(names, widths)]),
           "|" + "".join(["-" * w + "|" for w in widths])]
    for r in rows:
        out.append("|" + "".join([cell_text(c).ljust(w) + "|" for c, w in zip(r, widths)]))
    return "".join([l + "\n" for l in out])


def tables(ctx, nrows, names, length, alphabet, shape, others=(), around=("", ""), empty=False):
    """a table against the snapshot of a table of the same shape"""
    import pandas as pd

    def make(tag):
        rows = []
        for i in range(n):
            row = []
            for j in range(len(cols)):
                k = kinds[i * len(cols) + j]
                if k == "text":
                    row.append(around[0] + ctx.text("%s%d.%d" % (tag, i, j), length, alphabet) + around[1])
                else:
                    row.append(k)
            rows.append(row)
        return rows
    n = (0 if empty else 1) + ctx.pick("rows", nrows + (1 if empty else 0))
    cols = ctx.choice("columns", names)
    kinds = [ctx.choice("kind%d" % i, ["text"] + list(others)) for i in range(n * len(cols))]
    old, new = make("a"), make("b")
    rows = [old]

    def test(t):
        d = {c: [r[j] for r in rows[0]] for j, c in enumerate(cols)}
        if shape == "table":
            t.ttable(d)
        else:
            t.tdf(pd.DataFrame([list(r) for r in rows[0]], columns=list(cols), index=[7] * n))
        t.tln("end")
    lib.run([("x", test)], {"accept": True})
    want = expected(cols, old) + "end\n"
    ctx.check(ctx.eq(lib.read("books/x.md"), want), lambda: "printed %r instead of %r" % (lib.read("books/x.md"), want))
    r = lib.run([("x", test)])
    ctx.check(r.of("x") == "OK", lambda: "%s for the table of the snapshot %r" % (r.of("x"), want))
    rows[0] = new
    r = lib.run([("x", test)])
    want2 = expected(cols, new) + "end\n"
    ctx.check(ctx.eq(lib.read("books/.out/x.md"), want2), lambda: "printed %r instead of %r" % (lib.read("books/.out/x.md"), want2))
    same = ctx.all([ctx.eq(cell_text(x), cell_text(y)) for p, q in zip(old, new) for x, y in zip(p, q)])
    v = r.of("x")
    ctx.observe("verdict", v)
    if v == "OK":
        ctx.check(same, lambda: "OK for %r over the snapshot %r" % (want2, want))
        ctx.reach("same")
    else:
        # equal cells with equal widths are the same table
        ctx.check(v == "DIFF" and not ctx.eq(want, want2), lambda: "%s for %r over %r" % (v, want2, want))
        ctx.reach("different")


ANY = ALL_UNICODE.minus(charset("\x00"))
HARNESSES = [
    Harness("one column", tables, dict(nrows=1, names=[["c"]], length=(0, 2), alphabet=charset("ab1.-% |\n\té²"), shape="table"),
            dict(nrows=2, names=[["c"], ["long name"]], length=(0, 2), alphabet=charset("ab1.-% |\n\té²"), shape="table"),
            bounds="one cell of up to two characters over another", witness=("same", "different")),
    Harness("any text", tables, dict(nrows=1, names=[["name"]], length=1, alphabet=ANY, shape="frame"),
            dict(nrows=1, names=[["name"]], length=(0, 2), alphabet=ANY, shape="frame"),
            bounds="a cell of any character", witness=("same", "different")),
    Harness("inside", tables, dict(nrows=1, names=[["n"]], length=1, alphabet=ANY, shape="table", around=("a", "b")),
            dict(nrows=1, names=[["n"]], length=2, alphabet=ANY, shape="table", around=("a", "b")),
            bounds="a cell with any character inside", witness=("same", "different")),
    Harness("several cells", tables, dict(nrows=1, names=[["a", "b"]], length=(0, 1), alphabet=charset("a1| "), shape="table"),
            dict(nrows=2, names=[["a", "b"]], length=(0, 1), alphabet=charset("a1| "), shape="table"),
            bounds="two columns", witness=("same", "different")),
    Harness("several rows", tables, dict(nrows=2, names=[["a"], [1]], length=(0, 2), alphabet=charset("a|"), shape="frame"),
            dict(nrows=3, names=[["a"], [1]], length=(0, 2), alphabet=charset("a|"), shape="frame"),
            bounds="up to two rows", witness=("same", "different")),
    Harness("same names", tables, dict(nrows=1, names=[["a", "a"], ["a", "b", "a"]], length=1, alphabet=charset("a1"), shape="frame", empty=True),
            dict(nrows=1, names=[["a", "a"], ["a", "b", "a"], []], length=(0, 1), alphabet=charset("a1 "), shape="frame", empty=True),
            bounds="columns of the same name, and no rows", witness=("same", "different")),
    Harness("other cells", tables, dict(nrows=1, names=[["a"], [1], ["a", 2.5]], length=1, alphabet=charset("a|"), shape="table", others=[5, None]),
            dict(nrows=2, names=[["a"], [1], ["a", 2.5]], length=1, alphabet=charset("a|"), shape="table", others=[5, 0.5, None, True]),
            bounds="cells and column names that are not text", witness=("same", "different")),
    Harness("large", large.table, dict(shapes=[(100, 3, 0), (2, 40, 0), (2, 2, 500)]),
            dict(shapes=[(1000, 3, 0), (2, 200, 0), (2, 2, 5000)]),
            bounds="tables of 100 rows, of 40 columns, of cells of 500 characters", timeout=120, witness=("same", "different")),
]
