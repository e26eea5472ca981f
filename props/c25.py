"""C25 Process state is restored around every test"""
import logging, os, sys
from sx.ctx import Harness
from sx.core import charset, ALL_UNICODE
from props import lib, par
from booktest.detection import BookTestSetup
import booktest as bt

ASSUMPTIONS = ["tests of one process run one after another", "set-up runs once per serial run, and once per case given to a worker in a parallel run"]
TEXT = charset("".join(chr(c) for c in range(32, 127)) + "\u00e9\u4e00")
ENDS = ["ok", "diff", "fail", "raise", "error in log"]


class Handler(logging.Handler):
    def __init__(self, name):
        super().__init__()
        self.label = name
        self.records = []

    def emit(self, record):
        self.records.append(record.getMessage())


def streams(ctx, ncases, ends, handlers, alphabet, spoils, interrupts):
    """what tests write to standard error and the log, and what is there before, between and after them"""
    root = logging.getLogger()
    nh = ctx.choice("handlers", handlers)
    fmt = logging.Formatter("<%(message)s>")
    hs = [Handler("h%d" % i) for i in range(nh)]
    if nh:
        hs[0].setFormatter(fmt)
    root.handlers = list(hs)
    root.setLevel(logging.WARNING)
    err = sys.stderr
    before = (list(root.handlers), [h.formatter for h in hs])
    wrote = {}
    inside = []

    def intact():
        return sys.stderr is err and list(root.handlers) == before[0] and [h.formatter for h in hs] == before[1] and not err.closed

    def mk(n):
        end = ctx.choice("end of %s" % n, ends)
        spoil = ctx.choice("spoil in %s" % n, spoils)

        def f(t):
            inside.append((n, sys.stderr is err, [h for h in hs if h in root.handlers]))
            a, b = ctx.char("stderr %s" % n, alphabet), ctx.char("log %s" % n, alphabet)
            sys.stderr.write(a + "\n")
            logging.warning(b)
            wrote[n] = a + "\n" + ("<" + b + ">" if nh else b) + "\n"
            if end != "diff":
                t.iln("x")
            else:
                t.tln("x")
            if spoil == "stderr":
                sys.stderr = sys.stdout
            elif spoil == "handler":
                root.addHandler(logging.NullHandler())
            elif spoil == "handlers":
                root.handlers = []
            elif spoil == "close":
                sys.stderr.flush()
            if end == "fail":
                t.fail()
            elif end == "raise":
                raise ValueError("boom")
            elif end == "interrupt":
                raise KeyboardInterrupt()
            elif end == "exit":
                sys.exit(3)
        ends_of[n] = end
        if ctx.flag("async " + n):
            async def g(t):
                f(t)
            return g
        return f
    ends_of = {}
    names = ["a", "b", "c"][:ncases]
    tests = [(n, mk(n)) for n in names]
    for n in names:
        if ends_of[n] == "ok":
            lib.write("books/%s.md" % n, "")
    stopped = None
    try:
        r = lib.run(tests)
    except (KeyboardInterrupt, SystemExit) as e:
        ctx.check(any(ends_of[n] in interrupts for n in names), "the run ended early")
        stopped = [n for n in names if ends_of[n] in interrupts][0]
    ctx.check(intact(), lambda: "afterwards standard error %r, handlers %r with %r" % (sys.stderr is err, root.handlers, [h.formatter for h in hs]))
    for n, same, shown in inside:
        ctx.check(not same and shown == [], lambda: "in %s standard error or log are not redirected" % n)
    want = names[:names.index(stopped) + 1] if stopped else names
    ctx.check([i[0] for i in inside] == want, lambda: "executed %r" % (inside,))
    ctx.check(err.getvalue() == "", lambda: "standard error got %r" % err.getvalue())
    ctx.check(all(h.records == [] for h in hs), "a handler got records of a test")
    for n in want:
        t = lib.read("books/.out/%s.log" % n)
        ctx.check(t is not None and ctx.eq(t, wrote[n]), lambda: "log of %s: %r instead of %r" % (n, t, wrote[n]))
    logging.warning("later")
    ctx.check(all(h.records == ["later"] for h in hs), "a handler lost a record after the tests")
    ctx.reach("stopped" if stopped else "done")


def mk_setup(ctx, events, how):
    def setup():
        events.append("set-up")
        if how == "raises":
            raise RuntimeError("set-up failed")
        yield
        events.append("tear-down")
    return setup


def process(ctx, ends):
    """set-up and tear-down of the process, serial and parallel"""
    events = []
    names = ["a", "b", "c"]
    end = {n: ctx.choice("end of " + n, ends) for n in names[:2]}

    def mk(n):
        def f(t):
            events.append(n)
            t.tln("x")
            e = end.get(n, "ok")
            if e == "fail":
                t.fail()
            elif e == "raise":
                raise ValueError("boom")
            elif e == "interrupt":
                raise KeyboardInterrupt()
        return f
    tests = bt.Tests([[n, mk(n)] for n in names])
    args = ctx.choice("arguments", [["*"], ["-f", "*"], ["-p2", "*"], ["a"], ["-c", "*"], ["-l"], ["--garbage"]])
    setup = BookTestSetup(mk_setup(ctx, events, "plain"))
    interrupted = [n for n in names if end.get(n) == "interrupt"]
    parallel = "-p2" in args
    if parallel and interrupted:
        ctx.assume(False)
    real_exec = tests.exec_parsed
    tests.exec_parsed = lambda root, parsed, cache=None: real_exec(root, parsed, cache, setup=setup)
    raised = False
    try:
        if parallel:
            par.World(ctx, 0).run_main(tests, args)
        else:
            lib.main(tests, args)
    except KeyboardInterrupt:
        raised = True
    if args[-1] in ("-l", "--garbage"):
        ctx.check([e for e in events if e in names] == [], "a test ran")
        ctx.check(events.count("set-up") == events.count("tear-down"), "set-up without tear-down")
        return
    ran = [e for e in events if e in names]
    if parallel:
        # in each worker around its case
        ctx.check(sorted(ran) == names, lambda: events)
        k = [e if e not in names else "case" for e in events]
        ctx.check(k == ["set-up", "case", "tear-down"] * 3, lambda: events)
        ctx.reach("parallel")
        return
    ctx.check(events[0] == "set-up" and events[-1] == "tear-down" and events.count("set-up") == 1 and events.count("tear-down") == 1,
              lambda: "events %r of %r" % (events, args))
    ctx.reach("serial")


def per_test(ctx):
    """the decorator that sets up and tears down around one test"""
    events = []
    how = ctx.choice("set-up", ["plain", "raises"])
    end = ctx.choice("end", ["ok", "fail", "raise"])
    is_async = ctx.flag("async")
    deco = bt.setup_teardown(mk_setup(ctx, events, how))
    if ctx.flag("combined"):
        deco = bt.combine_decorators(bt.mock_env({"BTV_X": "1"}), deco)

    def body(t):
        events.append("test")
        t.tln("x")
        if end == "fail":
            t.fail()
        elif end == "raise":
            raise ValueError("boom")
    if is_async:
        @deco
        async def a(t):
            body(t)
    else:
        @deco
        def a(t):
            body(t)
    for k in range(2):
        del events[:]
        r = lib.run([("a", a)])
        if how == "raises":
            ctx.check(events == ["set-up"], lambda: events)
            ctx.check(r.of("a") == "FAIL", "set-up failed unnoticed")
        else:
            ctx.check(events == ["set-up", "test", "tear-down"], lambda: events)
            ctx.check((r.of("a") == "FAIL") == (end in ("fail", "raise")), lambda: r.of("a"))
        ctx.check("BTV_X" not in os.environ, "not restored")
    ctx.reach("done")


HARNESSES = [
    Harness("streams", streams, dict(ncases=1, ends=ENDS + ["interrupt", "exit"], handlers=[0, 1, 2], alphabet=TEXT, spoils=[None, "stderr", "handler", "handlers"],
                                     interrupts=("interrupt", "exit")),
            bounds="one case ending in each of seven ways, with up to two root handlers, any characters written", witness=("done", "stopped")),
    Harness("several", streams, dict(ncases=2, ends=["ok", "diff", "raise", "exit"], handlers=[0, 1], alphabet=charset("ab"), spoils=[None, "stderr"], interrupts=("exit",)),
            dict(ncases=3, ends=["ok", "diff", "raise", "exit"], handlers=[0, 1], alphabet=charset("ab"), spoils=[None, "stderr"], interrupts=("exit",)),
            bounds="two (three) cases in a row", witness=("done", "stopped")),
    Harness("process", process, dict(ends=["ok", "fail", "raise", "interrupt"]), bounds="set-up of the process around three cases in serial and parallel runs and other commands",
            witness=("serial", "parallel")),
    Harness("per_test", per_test, bounds="set-up of one test, raising, failing, async, combined", witness=("done",)),
]
