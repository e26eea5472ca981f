"""C34 However a selection is run, the verdicts, outputs and stored results are the same"""
import logging, os, pickle, shutil, sys
from sx.ctx import Harness
from sx.core import charset
from props import lib, par, large
import booktest as bt
from booktest.cache import LruCache, NoCache

ASSUMPTIONS = ["tests are deterministic functions of what they are given", "pool and threads as in C15",
               "tests that fail by an exception print a traceback, of which only the last line is compared"]


def observed(ctx, names):
    """what a run leaves: verdicts, output, line report and stored result of every case, and the snapshots"""
    recs = {}
    for c in lib.read_cases("books/.out/cases.txt"):
        ctx.check(c[0] not in recs, lambda: "%s recorded twice" % c[0])
        recs[c[0]] = c[1]
    files = {}
    for p, c in lib.tree("books").items():
        if p.startswith(".out/") and not p.endswith((".md", ".bin", ".txt")) or p == ".out/cases.txt" or p.startswith(".out/.batches"):
            continue
        if p == ".out/output.txt" or p.endswith("/"):
            continue
        if p.startswith(".out/") and c is not None and b"Traceback" in c:
            # up to the traceback
            c = c[:c.index(b"Traceback")]
        if p.endswith(".bin"):
            c = pickle.loads(c)
        files[p] = c
    return recs, files


def go(ctx, way, functions, names, used, late):
    """run all cases in some way; the exit status"""
    if way == "-p2":
        rc2, _ = par.World(ctx, late, shared=ctx.flag("one worker")).run_main(functions(), ["-p2"] + used)
    elif way == "one by one":
        rc2 = 0
        for x in names:
            r, _ = lib.main(functions(), used + [x])
            rc2 = rc2 or r
    elif way == "one by one, one process":
        cache, tests = LruCache(2), functions()
        rc2 = 0
        for x in names:
            r, _ = lib.main(tests, used + [x], cache=cache)
            rc2 = rc2 or r
    elif way == "no cache":
        rc2, _ = lib.main(functions(), used, cache=NoCache())
    elif way == "parts":
        rc2 = 0
        for x in (["s"], [x for x in names if not x.startswith("s/")]):
            if not x:
                continue
            r, _ = lib.main(functions(), used + x)
            rc2 = rc2 or r
    elif way == "backward":
        tests = functions()
        tests.reverse()
        rc2, _ = lib.main(tests, used)
    else:
        rc2, _ = lib.main(functions(), used + [way])
    return rc2


def compare(ctx, way, names, recs, files, recs2, files2):
    for x in names:
        ctx.check(recs2.get(x) == recs[x], lambda: "%s is %r, with %s %r" % (x, recs[x], way, recs2.get(x)))
    ctx.check(sorted(recs2) == sorted(recs), lambda: "recorded %r and %r" % (sorted(recs), sorted(recs2)))
    files.pop("index.md", None) if way == "backward" else None
    files2.pop("index.md", None) if way == "backward" else None
    for p in sorted(set(files) | set(files2)):
        ctx.check(p in files and p in files2 and ctx.eq(files[p], files2[p]),
                  lambda: "%s is %r, with %s %r" % (p, files.get(p), way, files2.get(p)))


def modes(ctx, n, alphabet, edges, ways, flags, late, new, stale):
    names = ["s/a", "s/b", "t", "s/a2"][:n]
    cs = [ctx.char("c%d" % i, alphabet) for i in range(n)]
    snapshot = [not (new and ctx.flag("new%d" % i)) for i in range(n)]
    ds = [[j for j in range(i) if (i, j) in edges and ctx.flag("edge %d %d" % (i, j))] for i in range(n)]
    used = [f for f in flags if ctx.flag(f)]
    left = stale and ctx.flag("left overs")
    way = ctx.choice("way", ways)
    ran = []
    lib.write(".booktest", "default_tests=*\n")

    def functions():
        funcs = []
        for i in range(n):
            def make(i):
                def f(t, *values):
                    ran.append(names[i])
                    t.h1("head")
                    t.tln("line " + cs[i])
                    for v in values:
                        t.tln("given %s" % (v,))
                    t.iln("info")
                    if cs[i] == "*":
                        raise ValueError("boom")
                    if cs[i] == "!":
                        t.fail().iln("bad")
                    return ["value", i, list(values)]
                return bt.depends_on(*[funcs[d] for d in ds[i]])(f) if ds[i] else f
            funcs.append(make(i))
        return [[x, f] for x, f in zip(names, funcs)]

    def prepare():
        if os.path.isdir("books"):
            shutil.rmtree("books")
        for i, x in enumerate(names):
            if snapshot[i]:
                given = "".join(["given %s\n" % (["value", j, [["value", k, []] for k in ds[j]]],) for j in ds[i]])
                lib.write("books/%s.md" % x, "# head\n\nline x\n" + given + "other info\n")
        if left:
            # of an earlier version of the tests
            for x in names:
                lib.write("books/.out/%s.md" % x, "# old\n")
                lib.write("books/.out/%s.txt" % x, "old\n")
            lib.write("books/.out/cases.txt", "".join(["%s\tOK\t1\n" % x for x in names[:-1]]))
    prepare()
    rc, _ = lib.main(functions(), used)
    recs, files = observed(ctx, names)
    ctx.check(sorted(recs) == sorted(names), lambda: "recorded %r" % recs)
    ctx.check((rc == 0) == all([recs[x] == "OK" for x in names]), "exit status of the first run")
    first = list(ran)
    ran.clear()
    prepare()
    rc2 = go(ctx, way, functions, names, used, late)
    recs2, files2 = observed(ctx, names)
    compare(ctx, way, names, recs, files, recs2, files2)
    ctx.check((rc == 0) == (rc2 == 0), lambda: "exit status %r, with %s %r" % (rc, way, rc2))
    ctx.check(set(ran) == set(first), lambda: "ran %r, with %s %r" % (first, way, ran))
    ctx.reach(way)


def overlap(ctx, names, alphabet, flags, most):
    """two workers whose work overlaps"""
    cs = [ctx.char("c%d" % i, alphabet) for i in range(2)]
    names = ctx.choice("names", names)
    used = [f for f in flags if ctx.flag(f)]
    lib.write(".booktest", "default_tests=*\n")

    def functions():
        def make(i):
            def f(t):
                t.h1("head")
                t.tln("line " + cs[i])
                with open(t.file("f"), "w") as h:
                    h.write("file of %d" % i)
                with open(t.tmp_file("f"), "w") as h:
                    h.write("tmp of %d" % i)
                d = t.tmp_dir("d")
                lib.write(d + "/g", "tmp of %d" % i)
                print("printed %d" % i)
                sys.stderr.write("log of %d\n" % i)
                logging.getLogger().warning("warning of %d", i)
                t.tln("%s %s" % (lib.read(t.file("f")), lib.read(t.tmp_file("f"))))
                if cs[i] == "*":
                    raise ValueError("boom")
                return ["value", i]
            return f
        return [[x, make(i)] for i, x in enumerate(names)]

    def prepare():
        if os.path.isdir("books"):
            shutil.rmtree("books")
        for i, x in enumerate(names):
            lib.write("books/%s.md" % x, "# head\n\nline x\nfile of %d tmp of %d\n" % (i, i))

    def files_of():
        recs, files = observed(ctx, names)
        for x in names:
            for e in (".log", "/f", ".tmp/f", ".tmp/d/g"):
                files["%s%s" % (x, e)] = lib.read("books/.out/%s%s" % (x, e))
        return recs, files
    prepare()
    rc, _ = lib.main(functions(), used)
    recs, files = files_of()
    prepare()
    w = par.Overlap(ctx, most)
    rc2, _ = w.run_main(functions(), ["-p2"] + used)
    recs2, files2 = files_of()
    compare(ctx, "overlapping workers", names, recs, files, recs2, files2)
    ctx.check((rc == 0) == (rc2 == 0), lambda: "exit status %r, with overlapping workers %r" % (rc, rc2))
    ctx.reach("overlap" if w.met else "one after the other")


VALUE = [None]


def now():
    return VALUE[0]


NOW = now


def snapshotting(ctx, ways, flags, late):
    """cases that record functions and environment variables"""
    global now
    names = ["s/a", "t"]
    kinds = {x: ctx.choice("records of " + x, ["function", "variable", "none"]) for x in names}
    recorded = ctx.flag("recorded")
    used = ctx.choice("flags", flags)
    way = ctx.choice("way", ways)
    lib.write(".booktest", "default_tests=*\n")
    now = NOW

    def functions():
        def make(kind):
            def plain(t):
                t.tln("value %s" % now())
                t.tln("variable %s" % os.environ.get("SXV_A"))
            return {"function": bt.snapshot_functions(NOW), "variable": bt.snapshot_env("SXV_A"), "none": lambda f: f}[kind](plain)
        return [[x, make(kinds[x])] for x in names]

    def prepare():
        if os.path.isdir("books"):
            shutil.rmtree("books")
        VALUE[0] = os.environ["SXV_A"] = "old"
        if recorded:
            lib.main(functions(), ["-s", "-a", "-u"])
            shutil.rmtree("books/.out")
        else:
            for x in names:
                lib.write("books/%s.md" % x, "value old\nvariable old\n")
        VALUE[0] = os.environ["SXV_A"] = "now"
    try:
        prepare()
        rc, _ = lib.main(functions(), used)
        recs, files = observed(ctx, names)
        prepare()
        rc2 = go(ctx, way, functions, names, used, late)
        recs2, files2 = observed(ctx, names)
        compare(ctx, way, names, recs, files, recs2, files2)
        ctx.check((rc == 0) == (rc2 == 0), lambda: "exit status %r, with %s %r" % (rc, way, rc2))
        ctx.check(now is NOW and os.environ["SXV_A"] == "now", "not restored")
    finally:
        now = NOW
        os.environ.pop("SXV_A", None)
    ctx.reach(way)


class Measuring:
    """stands in for the coverage tool"""
    events = []

    def __init__(self, *args, **kwargs):
        # reads old data when it starts
        self.events.append(("left", sorted([x for x in os.listdir(".") if x == ".coverage" or x.startswith(".coverage.")])))

    def start(self):
        self.events.append("start")

    def stop(self):
        self.events.append("stop")

    def save(self):
        self.events.append("save")
        with open(".coverage", "w") as f:
            f.write("new")

    def combine(self, *args, **kwargs):
        self.events.append("combine")

    def xml_report(self, *args, **kwargs):
        self.events.append("xml")

    def report(self, *args, **kwargs):
        self.events.append("report")


def covered(ctx, n, kinds, files, sources):
    """measuring the coverage changes nothing else"""
    import booktest.tests
    import coverage
    names = ["s/a", "t", "u"][:n]
    kind = {x: ctx.choice("kind of " + x, kinds) for x in names}
    left = [f for f in files if ctx.flag("left " + f)]
    flags = ctx.choice("flags", [[], ["-f"], ["-p2"]])
    source = ctx.choice("source", sources)
    ran = Measuring.events = []

    def functions():
        def make(x):
            def f(t):
                ran.append("run " + x)
                t.tln("line" if kind[x] != "different" else "other")
                if kind[x] == "fails":
                    t.fail()
                if kind[x] == "raises":
                    raise ValueError("boom")
                if kind[x] == "interrupt":
                    raise KeyboardInterrupt()
            return f
        return [[x, make(x)] for x in names]

    def prepare():
        if os.path.isdir("books"):
            shutil.rmtree("books")
        for x in names:
            lib.write("books/%s.md" % x, "line\n")
        for f in os.listdir("."):
            if os.path.isfile(f):
                os.remove(f)
        lib.write(".booktest", "default_tests=*\n")
        for f in left:
            lib.write(f, "old")

    def run(args):
        bt.config.DEFAULT_CONFIG = None
        try:
            if "-p2" in args:
                return par.World(ctx, 0).run_main(functions(), args)[0]
            return lib.main(functions(), args)[0]
        except KeyboardInterrupt:
            return "interrupted"
    ctx.assume("-p2" not in flags or "interrupt" not in kind.values())
    prepare()
    rc = run(flags)
    without = [list(ran)] + list(observed(ctx, lib.read_cases("books/.out/cases.txt")))
    ran.clear()
    prepare()
    saved = booktest.tests.Coverage, coverage.Coverage
    booktest.tests.Coverage = coverage.Coverage = Measuring
    try:
        if source == "file":
            lib.write(".booktest", "default_tests=*\ncoverage=1\n")
        rc2 = run(flags + (["--cov"] if source == "option" else []))
    finally:
        booktest.tests.Coverage, coverage.Coverage = saved
    events = list(ran)
    cases = [e for e in events if e[:4] == "run "]
    with_ = [cases] + list(observed(ctx, lib.read_cases("books/.out/cases.txt")))
    ctx.check(rc == rc2, lambda: "exit status %r, and %r when measuring" % (rc, rc2))
    for a, b, what in zip(without, with_, ("executed", "recorded", "files")):
        ctx.check(ctx.eq(a, b), lambda: "%s %r, and %r when measuring" % (what, a, b))
    ctx.check(("left", []) in events, lambda: "data of earlier runs is left: %r" % events)
    ctx.check(events.count("start") == 1 and events.count("stop") == 1 and events.count("save") >= 1, lambda: "measured %r" % events)
    ctx.check(all([events.index("start") < events.index(c) < events.index("stop") for c in cases]), lambda: "measured %r" % events)
    ctx.check(events.index("stop") < events.index("save") < events.index("xml"), lambda: "measured %r" % events)
    for f in left:
        if f != ".coverage" and not f.startswith(".coverage."):
            ctx.check(lib.read(f) == "old", lambda: "%s was changed" % f)
    ctx.check(lib.read(".coverage") == "new", "the measured data is gone")
    ctx.reach("interrupted" if rc == "interrupted" else "measured")


E3 = [(1, 0), (2, 0), (2, 1)]
WAYS = ["-p2", "one by one", "one by one, one process", "no cache", "parts", "backward", "-v", "-L"]
HARNESSES = [
    Harness("ways", modes, dict(n=3, alphabet="x!*y", edges=[(1, 0), (2, 1)], ways=WAYS, flags=[], late=1, new=False, stale=False),
            dict(n=3, alphabet="x!*y", edges=E3, ways=WAYS, flags=["-u"], late=2, new=True, stale=True),
            bounds="3 cases of every mix of verdicts, dependencies in a chain (any), one late task, each way of running", witness=WAYS),
    Harness("accepting", modes, dict(n=2, alphabet="x!*y", edges=E3, ways=WAYS, flags=["-a", "-u"], late=1, new=True, stale=True),
            dict(n=3, alphabet="x!*y", edges=[(1, 0), (2, 1)], ways=WAYS, flags=["-a"], late=1, new=True, stale=True),
            bounds="2 (3) cases with and without snapshots, accepting and updating, over left overs", witness=WAYS),
    Harness("snapshotting", snapshotting, dict(ways=WAYS, flags=[[], ["-s"], ["-S"], ["-S", "-a"], ["-s", "-S", "-u"]], late=1),
            bounds="2 cases with recorded functions and variables, or without a record, completing and refreshing", witness=WAYS),
    Harness("covered", covered, dict(n=2, kinds=["passes", "different", "fails", "raises", "interrupt"], files=[".coverage", ".coverage.host.1", ".coveragerc", "coverage.txt"],
                                     sources=["option", "file"]),
            bounds="2 cases of any kind, also interrupted, with data left by earlier runs", witness=("measured", "interrupted")),
    Harness("many", large.modes, dict(n=40),
            dict(n=200),
            bounds="40 cases of which none, one, two or all are not OK", timeout=120, witness=("done",)),
    Harness("overlap", overlap, dict(names=[["s/a", "s/b"], ["a", "a.b"]], alphabet=charset("xy*"), flags=["-a"], most=60),
            dict(names=[["s/a", "s/b"], ["a", "a.b"], ["a", "a/b"]], alphabet=charset("xy*"), flags=["-a", "-v", "-s"], most=80),
            bounds="two workers of which one is stopped before or after any of its changes of files while the other does its work",
            witness=("overlap", "one after the other")),
]
