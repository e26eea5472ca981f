"""C12 The run list is closed under needed dependencies, ordered, without repeats"""
from sx.ctx import Harness
from props import lib, large
import booktest as bt

ASSUMPTIONS = ["dependencies form no cycle; in 'graphs' the existence of stored results and the edges are symbolic and "
               "decided when the code asks for them"]


class Lazy:
    """symbolic truth values, decided when first asked for"""

    def __init__(self, ctx):
        self.ctx, self.memo = ctx, {}

    def __call__(self, key):
        if key not in self.memo:
            self.memo[key] = self.ctx.flag(key)
        return self.memo[key]


class LazyList:
    def __init__(self, lazy, items):
        self.lazy, self.items = lazy, items

    def __iter__(self):
        for key, v in self.items:
            if self.lazy(key):
                yield v

    def __len__(self):
        return sum(1 for x in self)


def closure(n, deps, selected, stored, refresh):
    todo = [i for i in range(n) if selected(i)]
    got = set(todo)
    while todo:
        i = todo.pop()
        for d in deps(i):
            if d not in got and (selected(d) or refresh or not stored(d)):
                got.add(d)
                todo.append(d)
    return got


def check_list(ctx, names, listed, n, deps, selected, stored, refresh, what):
    want = closure(n, deps, selected, stored, refresh)
    idx = [names.index(x) if x in names else None for x in listed]
    ctx.check(None not in idx, lambda: "%s: unknown names %r" % (what, listed))
    ctx.check(len(set(idx)) == len(idx), lambda: "%s: repeats in %r" % (what, listed))
    ctx.check(set(idx) == want, lambda: "%s: %r instead of %r" % (what, sorted(listed), sorted([names[i] for i in want])))
    for p, i in enumerate(idx):
        for d in deps(i):
            ctx.check(d not in idx or idx.index(d) < p, lambda: "%s: %s comes before its dependency %s in %r" %
                      (what, names[i], names[d], listed))
    ctx.reach("extra" if any(not selected(i) for i in want) else "as selected")


def graphs(ctx, n, orders, nsel):
    """every graph, selection and set of stored results"""
    lazy = Lazy(ctx)
    names = ["s/a", "s/b", "t/c", "s/d", "t/e"][:n]
    funcs = []
    for i in range(n):
        def f(t):
            pass
        f._dependencies = LazyList(lazy, [("edge %d %d" % (i, j), funcs[j]) for j in range(i)])
        funcs.append(f)
    order = ctx.choice("order", orders)

    class T(bt.Tests):
        def test_result_exists(self, out_dir, case_path):
            ctx.check(out_dir == "books/.out", "another output directory")
            return lazy("stored " + case_path)
    tests = T([[names[i], funcs[i]] for i in order])
    sel = [ctx.choice("e%d" % k, names + ["s", "t", "*"]) for k in range(nsel)]
    refresh = ctx.flag("refresh")
    listed = tests.selected_names(sel, None if refresh else "books/.out")

    def deps(i):
        return [j for j in range(i) if lazy("edge %d %d" % (i, j))]

    def selected(i):
        return any([e == "*" or names[i] == e or names[i].startswith(e + "/") for e in sel])

    def stored(i):
        return lazy("stored " + names[i])
    check_list(ctx, names, listed, n, deps, selected, stored, refresh, "list")
    ctx.observe("listed", listed)


def wide(ctx, n):
    """long lists: any of many cases may need the first one and the one before"""
    names = ["s/%s" % "abcdefghij"[i] for i in range(n)]
    near = ctx.choice("chain from", list(range(1, n)) + [n])
    edges = {0: []}
    funcs = []
    for i in range(n):
        def f(t):
            pass
        edges[i] = ([0] if i > 0 and ctx.flag("edge%d" % i) else []) + ([i - 1] if i >= near and i > 1 else [])
        f._dependencies = [funcs[j] for j in edges[i]]
        funcs.append(f)
    order = list(range(n))
    if ctx.flag("reverse"):
        order.reverse()
    dep_selected = ctx.flag("select first")
    tests = bt.Tests([[names[i], funcs[i]] for i in order])
    sel = names if dep_selected else names[1:]
    listed = tests.selected_names(sel, None)
    check_list(ctx, names, listed, n, lambda i: edges[i], lambda i: names[i] in sel, lambda i: False, True, "list")


def run(ctx, n, orders, resource):
    """the same on disk, through the command line: what runs, in which order"""
    names = ["s/a", "s/b", "t/c", "s/d"][:n]
    edges = {}
    ran = []
    funcs = []
    for i in range(n):
        ds = [j for j in range(i) if ctx.flag("edge %d %d" % (i, j))]
        edges[i] = ds

        def make(i, ds):
            def f(t, *values):
                ran.append(names[i])
                t.tln(names[i])
                return i + 1
            res = [bt.Resource("r")] if resource else []
            return bt.depends_on(*(res + [funcs[d] for d in ds]))(f) if ds or resource else f
        funcs.append(make(i, ds))
    order = ctx.choice("order", orders)
    sel = [i for i in range(n) if ctx.flag("sel%d" % i)]
    ctx.assume(len(sel) > 0)
    # what an earlier run left: the result, the output that was not accepted, both or nothing
    left = [ctx.choice("left%d" % i, ["", "both", ".bin", ".md"] if not i in sel and any([i in edges[j] for j in edges])
                       else ["", "both"]) for i in range(n)]
    had = [x in ("both", ".bin") for x in left]
    refresh = ctx.flag("refresh")
    import os
    import pickle
    for i in range(n):
        if left[i] in ("both", ".md"):
            lib.write("books/.out/%s.md" % names[i], "")
        if had[i]:
            os.makedirs("books/.out/" + names[i].rsplit("/", 1)[0], exist_ok=True)
            with open("books/.out/%s.bin" % names[i], "wb") as f:
                pickle.dump(i + 1, f)
    tests = bt.Tests([[names[i], funcs[i]] for i in order])
    # without a report of an earlier run, continuing it is running everything
    args = (["-r"] if refresh else []) + (["-c"] if ctx.flag("continue") else []) + [names[i] for i in sel]
    rc, text = lib.main(tests, ["-l"] + args)
    listed = [l.strip() for l in lib.lines(text)]
    a = (ctx, names, listed, n, lambda i: edges[i], lambda i: i in sel, lambda i: had[i], refresh)
    check_list(*a, "list")
    lib.main(tests, args)
    ctx.check(ran == listed, lambda: "%r ran, %r were listed" % (ran, listed))
    for i in range(n):
        recs = [c for c in lib.read_cases("books/.out/cases.txt") if c[0] == names[i]]
        ctx.check(len(recs) == (1 if names[i] in listed else 0), lambda: "records %r" % recs)
        ctx.check(len(recs) == 0 or recs[0][1] == "DIFF", lambda: "not run with its dependencies' values: %r" % recs)


HARNESSES = [
    Harness("graphs", graphs, dict(n=4, orders=[[0, 1, 2, 3], [3, 2, 1, 0], [2, 0, 3, 1]], nsel=1),
            dict(n=4, orders=[[0, 1, 2, 3], [3, 2, 1, 0], [2, 0, 3, 1], [1, 3, 0, 2]], nsel=2),
            bounds="every acyclic graph of 4 cases, 3 (4) definition orders, 1 (2) selection entries, any stored results",
            witness=("extra", "as selected")),
    Harness("wide", wide, dict(n=7), dict(n=9), bounds="7 (9) cases, any of which need the first one, with a chain at the end",
            witness=("extra", "as selected")),
    Harness("run", run, dict(n=3, orders=[[0, 1, 2], [2, 1, 0]], resource=False),
            dict(n=3, orders=[[0, 1, 2], [2, 1, 0], [1, 2, 0], [2, 0, 1]], resource=True),
            bounds="every acyclic graph of 3 cases, 2 (4) definition orders, any selected cases and stored results, run",
            witness=("extra", "as selected")),
    Harness("long chain", large.chain, dict(n=30, what="order"),
            dict(n=100, what="order"),
            bounds="a chain of 30 tests in any of 3 orders", timeout=120, witness=("done",)),
]
