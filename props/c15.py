"""C15 Parallel runs never break resource exclusion or dependency order, and finish"""
import os
from sx.ctx import Harness
from props import lib, par, large
import booktest as bt

ASSUMPTIONS = ["the pool and the thread are stand-ins under control of the solver: a task ends when the solver says so, "
               "threads change at sleeps, joins and (preempts) at locks; a worker process that dies without the pool "
               "noticing is not modelled"]
RES = [None, "r1", "r2", "both"]


def schedules(ctx, n, late, preempts, edges, resources, records, args):
    """every completion order over every dependency graph and use of resources"""
    names = ["s/a", "s/b", "t", "s/d"][:n]
    ran = []
    deps, res, funcs = {}, {}, []
    for i in range(n):
        ds = [j for j in range(i) if (i, j) in edges and ctx.flag("edge %d %d" % (i, j))]
        r = ctx.choice("resource %d" % i, resources)

        def make(i, ds, r):
            def f(t, *values):
                ran.append(names[i])
                t.tln("line")
                return i
            # equal resources, not the same objects
            # whose values differ, as it is the identifier that counts
            r1 = bt.Resource("value %d" % i, "r1")
            rs = {None: [], "r1": [r1], "r2": [bt.port(2)], "both": [bt.port(2), r1]}[r]
            return bt.depends_on(*(rs + [funcs[d] for d in ds]))(f)
        deps[names[i]] = [names[d] for d in ds]
        res[names[i]] = {None: set(), "r1": set(["r1"]), "r2": set(["r2"]), "both": set(["r1", "r2"])}[r]
        funcs.append(make(i, ds, r))
        lib.write("books/%s.md" % names[i], "line\n")
    rec = ctx.choice("report", records)
    if rec is not None:
        lib.write("books/.out/cases.txt", "".join(["%s\tOK\t%d\n" % (x, d) for x, d in zip(names, rec)]))
    listing = ctx.choice("listed", ["forward", "backward"])
    cases = list(zip(names, funcs))
    if listing == "backward":
        cases.reverse()
    tests = bt.Tests([[a, b] for a, b in cases])
    w = par.World(ctx, late, preempts)

    def started(name, running, done):
        ctx.check(name in names, lambda: "an unknown case %r is started" % name)
        ctx.check(name not in running and name not in done, lambda: "%s is started again" % name)
        for d in deps[name]:
            ctx.check(d in done, lambda: "%s is started before its dependency %s has finished" % (name, d))
        for x in running:
            ctx.check(not (res[x] & res[name]), lambda: "%s is started while %s uses %r" % (name, x, res[x] & res[name]))
    w.on_started = started
    rc, text = w.run_main(tests, args + names)
    ctx.check(sorted(w.started) == sorted(names), lambda: "started %r" % w.started)
    ctx.check(sorted(ran) == sorted(names), lambda: "ran %r" % ran)
    ctx.reach("overlap" if w.asked > 0 else "sequence")
    recs = lib.read_cases("books/.out/cases.txt")
    for x in names:
        ctx.check([c[1] for c in recs if c[0] == x] == ["OK"], lambda: "records %r" % recs)
    ctx.check(rc == 0, lambda: "exit status %r\n%s" % (rc, text))


def continued(ctx, n, late, args):
    """continue mode: dependencies outside the run don't hold it up; symbolic old report"""
    names = ["a", "b", "c"][:n]
    ran, funcs, deps = [], [], {}
    import pickle
    for i in range(n):
        ds = [j for j in range(i) if ctx.flag("edge %d %d" % (i, j))]

        def make(i, ds):
            def f(t, *values):
                ran.append(names[i])
                t.tln("line %s" % (list(values) == ["x"] + ds))
                return i
            return bt.depends_on(*([bt.Resource("x")] + [funcs[d] for d in ds]))(f)
        deps[names[i]] = [names[d] for d in ds]
        funcs.append(make(i, ds))
        lib.write("books/%s.md" % names[i], "line True\n")
    done = [x for x in names if ctx.flag("done " + x)]
    lib.write("books/.out/cases.txt", "".join(["%s\t%s\t%d\n" % (x, "OK" if x in done else "DIFF", 1) for x in names]))
    for i, x in enumerate(names):
        with open("books/.out/%s.bin" % x, "wb") as f:
            pickle.dump(i, f)
    w = par.World(ctx, late)

    def started(name, running, over):
        ctx.check(name not in done, lambda: "%s is recorded OK" % name)
        ctx.check(len(running) == 0, "two users of a resource")
        for d in deps[name]:
            ctx.check(d in done or d in over, lambda: "%s is started before its dependency %s has finished" % (name, d))
    w.on_started = started
    rc, text = w.run_main([(x, f) for x, f in zip(names, funcs)], args + names)
    ctx.check(sorted(ran) == sorted([x for x in names if x not in done]), lambda: "ran %r" % ran)
    recs = lib.read_cases("books/.out/cases.txt")
    ctx.check(sorted([(c[0], c[1]) for c in recs]) == [(x, "OK") for x in names], lambda: "records %r" % recs)
    ctx.reach("some" if done and ran else "all or none")
    ctx.check(rc == 0, lambda: "exit status %r" % rc)


def counts(ctx, digits, ways, cases):
    """as many workers as asked for, from wherever the number comes"""
    way = ctx.choice("way", ways)
    lib.write("books/t.md", "line\n")
    conf, args = "", []
    if way in ("-p", "False", "serial"):
        n = {"-p": os.cpu_count(), "False": 0, "serial": 0}[way]
        conf = "parallel=0\n" if way == "False" else ""
        args = ["-p"] if way == "-p" else []
    elif way.startswith("-p"):
        n, args = int(way[2:]), [way]
        if ctx.flag("file too"):
            conf = "parallel=5\n"
    else:
        # the argument parser needs a concrete number
        d = str(ctx.choice("number", list(range(1, 13)))) if way == "--parallel-count" else ctx.text("count", (1, digits), "0123456789")
        ctx.assume(d[0] != "0")
        if way == "--parallel-count":
            args = [way, d]
        else:
            # 1 in a file means "yes"
            ctx.assume(d != "1")
            conf = "parallel=%s\n" % d if way == "file" else ""
            if way == "environment":
                os.environ["BOOKTEST_PARALLEL"] = d
        n = d
    lib.write(".booktest", "default_tests=*\n" + conf)
    ran = []

    def make(x):
        def test(t):
            ran.append(x)
            t.tln("line")
        return test
    names = ["t", "u", "v"][:cases]
    for x in names:
        lib.write("books/%s.md" % x, "line\n")
    w = par.World(ctx, 1)
    bt.config.DEFAULT_CONFIG = None
    rc, text = w.run_main([(x, make(x)) for x in names], args)
    ctx.check(rc == 0 and sorted(ran) == sorted(names), lambda: "exit status %r, ran %r" % (rc, ran))
    asked = [p.processes for p in w.pools]
    if n == 0:
        ctx.check(asked == [], lambda: "workers %r in a serial run" % asked)
    else:
        ctx.check(len(asked) == 1, lambda: "pools %r" % asked)
        got = asked[0] if asked[0] is not None else os.cpu_count()
        ctx.check(str(got) == d if way in ("--parallel-count", "file", "environment") else got == n, lambda: "%r workers instead of %r" % (got, n))
    ctx.reach(way)


PS = ["-p%d" % n for n in (1, 2, 3, 4, 6, 8, 16)]
WAYS = PS + ["-p", "--parallel-count", "file", "environment", "False", "serial"]
E3 = [(1, 0), (2, 0), (2, 1)]
HARNESSES = [
    Harness("schedules", schedules, dict(n=3, late=3, preempts=0, edges=E3, resources=RES[:2], records=[None, (1, 2, 3)], args=["-p2"]),
            dict(n=3, late=4, preempts=0, edges=E3, resources=RES, records=[None, (1, 2, 3)], args=["-p2"]),
            bounds="3 cases, every graph and use of one (two) resources, every completion order with at most 3 (4) looks at "
                   "unfinished tasks", witness=("overlap",)),
    Harness("preempted", schedules, dict(n=2, late=2, preempts=1, edges=E3, resources=RES[:2], records=[None], args=["-p2"]),
            dict(n=3, late=2, preempts=2, edges=[(2, 0)], resources=RES[:2], records=[None], args=["-p2"]),
            bounds="2 (3) cases, at most 1 (2) changes of threads at locks", witness=("overlap",)),
    Harness("resources", schedules, dict(n=3, late=2, preempts=0, edges=[], resources=["r1", "r2", "both"], records=[None], args=["-p2"]),
            dict(n=4, late=2, preempts=0, edges=[(3, 0)], resources=["r1", "r2", "both"], records=[None], args=["-p3"]),
            bounds="3 (4) cases with two resources, any use of them", witness=("overlap",)),
    Harness("continued", continued, dict(n=3, late=2, args=["-p2", "-c"]), dict(n=3, late=4, args=["-p2", "-c"]),
            bounds="3 cases, every graph, any of them done before", witness=("some", "all or none")),
    Harness("counts", counts, dict(digits=2, ways=WAYS, cases=2), dict(digits=3, ways=WAYS, cases=3),
            bounds="every option, and any number of up to two (three) digits on the command line, in the file or the environment", witness=WAYS),
    Harness("many", large.parallel, dict(n=24, args=["-p3"], graphs=["none", "chain", "last uses all", "pairs", "resources"]),
            dict(n=100, args=["-p8"], graphs=["none", "chain", "last uses all", "pairs", "resources"]),
            bounds="24 cases in a chain, in pairs, or all used by one, or with three resources, the first or last of them slow", timeout=120, witness=("good", "bad")),
]
