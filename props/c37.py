"""C37 The command finds, selects and runs the tests of the configured places"""
import io, os, sys, importlib
from sx.ctx import Harness
from sx.core import charset
from props import lib, par
from props.c24 import home
from props.c27 import module, function, gone
import booktest as bt
import booktest.cli
from booktest import detection

ASSUMPTIONS = ["the configured places do not lie inside one another and are listed once", "at most one of them has a process set-up",
               "test modules are put in Python's table of modules instead of being read by import", "a new process is modelled by resetting "
               "the module level state of the package"]
DIRS = ["a", "b", "c", "test", "book", "run"]


def command(ctx, args):
    """exit status of the process and printed text"""
    bt.config.DEFAULT_CONFIG = None
    old, err = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        try:
            rv = booktest.cli.main(list(args))
            status = 0 if rv is None else rv
        except SystemExit as e:
            status = e.code
        text = sys.stdout.getvalue()
    finally:
        sys.stdout, sys.stderr = old, err
    return status, text


def under(name, prefix):
    """whole components"""
    return name == prefix or name.startswith(prefix + "/")


def plain(q):
    """another spelling of the same directory"""
    if q[:2] == "./":
        q = q[2:]
    return q[:-1] if q[-1:] == "/" else q


def wanted(names, entries):
    skips = [e[5:] for e in entries if e.startswith("skip:")]
    plain = [e for e in entries if not e.startswith("skip:")]
    out = []
    for n in names:
        if any(under(n, s) for s in skips):
            continue
        if not plain or any(p == "*" or under(n, p) for p in plain):
            out.append(n)
    return out


def setting(ctx, key, value, sources):
    s = ctx.choice("source of " + key, sources)
    if s == "environment":
        os.environ["BOOKTEST_" + key.upper()] = value
        return
    p = ".booktest" if s == "project" else "home/.booktest"
    lib.write(p, (lib.read(p) or "") + "%s=%s\n" % (key, value))


def command_line(ctx, dirs, paths, defaults, books, argss, sources, verdicts, setups=(None,), alphabet=charset("abcd")):
    home()
    mods, ran, events, calls = [], [], [], []
    verdict = ctx.choice("verdict", verdicts)
    setup = ctx.choice("set-up", setups)

    def case(name, dotted):
        def f(t):
            events.append("run")
            ran.append(name)
            t.tln("line of " + name)
            if verdict == "fail" and name == "b/foo/one":
                t.fail().tln("bad")
            if verdict == "raise" and name == "b/foo/two":
                raise KeyError(name)
        f.__name__ = f.__qualname__ = "test_" + name.split("/")[-1]
        f.__module__ = dotted
        return f
    names = {}
    try:
        for d in dirs:
            dotted = d + ".foo_test"
            m = module(dotted)
            mods.append(dotted)
            names[d] = []
            for n in ("one", "two"):
                setattr(m, "test_" + n, case(d + "/foo/" + n, dotted))
                names[d].append(d + "/foo/" + n)
            lib.write(d + "/foo_test.py", "")
            lib.write(d + "/helper.py", "")
        if setup is not None:
            dotted = setup.replace("/", ".") + ".__booktest__"
            m = module(dotted)
            mods.append(dotted)

            def process_setup_teardown():
                events.append("begin")
                yield
                events.append("end")
            m.process_setup_teardown = process_setup_teardown
            lib.write(setup + "/__booktest__.py", "")
        p = ctx.choice("test_paths", paths)
        if p is None:
            p = "test,book,run"
        else:
            p = ",".join(k.replace("?", ctx.char("path %d" % i, alphabet)) if "?" in k else k for i, k in enumerate(p.split(",")))
            ps = p.split(",")
            for i in range(len(ps)):
                for j in range(i):
                    ctx.assume(plain(ps[i]) != plain(ps[j]))
            setting(ctx, "test_paths", p, sources)
        have = []
        for q in p.split(","):
            for d in dirs:
                if plain(q) == d or q in (".", "./"):
                    have += names[d]
        e = ctx.choice("default_tests", defaults)
        if e is None:
            e = "test,book"
        else:
            e = ",".join(k.replace("?", ctx.char("default %d" % i, alphabet)) if "?" in k else k for i, k in enumerate(e.split(",")))
            setting(ctx, "default_tests", e, sources)
        b = ctx.choice("books_path", books)
        if b is None:
            b = "books"
        else:
            setting(ctx, "books_path", b, sources)
        args = list(ctx.choice("arguments", argss))
        entries = args or e.split(",")
        choices = ["*"]
        for n in have:
            parts = n.split("/")
            for i in range(len(parts)):
                q = "/".join(parts[:i + 1])
                choices += [q, "skip:" + q]
        before = lib.tree(".")
        status, text = command(ctx, ["-a"] + args)
        if any(a not in choices for a in args):
            ctx.reach("unknown")
            ctx.check(status not in (0, None), lambda: "success although %r names no case of %r" % (args, have))
            ctx.check(not ran and lib.tree(".") == before, "something was done although a name is unknown")
            return
        want = wanted(have, entries)
        if p in (".", "./") and sorted(ran) == sorted(want):
            # the order of the directories inside a place is not part of it
            want = list(ran)
        ctx.check(ran == want, lambda: "%r ran instead of %r, paths %r, selection %r" % (ran, want, p, entries))
        good = not (verdict == "fail" and "b/foo/one" in want or verdict == "raise" and "b/foo/two" in want)
        ctx.check((status == 0) == good, lambda: "exit status %r, cases good %r\n%s" % (status, good, text))
        got = lib.read_cases(b + "/.out/cases.txt")
        ctx.check([g[0] for g in got] == want, lambda: "report %r instead of %r" % (got, want))
        for g in got:
            bad = verdict == "fail" and g[0] == "b/foo/one" or verdict == "raise" and g[0] == "b/foo/two"
            ctx.check(g[1] == ("FAIL" if bad else "OK"), lambda: "%r" % (got,))
            ctx.check((lib.read(b + "/" + g[0] + ".md") is not None) == (not bad), lambda: "snapshot of %s, verdict %s" % (g[0], g[1]))
        index = lib.read(b + "/index.md") or ""
        for n in have:
            ctx.check(index.count("(%s.md)" % n) == 1, lambda: "index links %s %d times" % (n, index.count("(%s.md)" % n)))
        after = lib.tree(".")
        for f in after:
            if f not in before:
                ctx.check(under(f.rstrip("/"), plain(b)) or f.endswith("/") and plain(b).startswith(f), lambda: "wrote %s outside %s" % (f, b))
        for f in before:
            ctx.check(f in after and after[f] == before[f], lambda: "%s changed" % f)
        where = setup.split("/")[0] if setup else None
        if setup is not None and any(plain(q) == where or q in (".", "./") for q in p.split(",")):
            ctx.reach("set up")
            ctx.check(events == ["begin"] + ["run"] * len(want) + ["end"], lambda: "order of set-up, cases and tear-down: %r" % (events,))
        else:
            ctx.check(events == ["run"] * len(want), lambda: "set-up of a place that is not configured ran: %r" % (events,))
        # again, without accepting: the same cases compare with their snapshots there
        del ran[:]
        status, text = command(ctx, args)
        ctx.check(ran == want and (status == 0) == good, lambda: "again: %r, status %r" % (ran, status))
        status, text = command(ctx, ["-l"] + args)
        ctx.check(status == 0 and [l.strip() for l in text.split("\n") if l.strip()] == want, lambda: "listed %r instead of %r" % (text, want))
        ctx.reach("ran" if want else "none")
    finally:
        gone(mods)


def workers(ctx, dirs, setups, verdicts, late, flags):
    """a parallel run: the set-up is around every case in its process, and not once it is over"""
    home()
    mods, events = [], []
    depth = [0]
    verdict = ctx.choice("verdict", verdicts)
    setup = ctx.choice("set-up", setups)
    how = ctx.choice("how", flags)

    def case(name, dotted):
        def f(t):
            events.append((name, depth[0]))
            t.tln("line of " + name)
            if verdict == "fail" and name.endswith("one"):
                t.fail()
            if verdict == "raise" and name.endswith("two"):
                raise KeyError(name)
        f.__name__ = f.__qualname__ = "test_" + name.split("/")[-1]
        f.__module__ = dotted
        return f
    try:
        want = []
        for d in dirs:
            dotted = d + ".foo_test"
            m = module(dotted)
            mods.append(dotted)
            for n in ("one", "two"):
                setattr(m, "test_" + n, case(d + "/foo/" + n, dotted))
                want.append(d + "/foo/" + n)
            lib.write(d + "/foo_test.py", "")
        begun, ended = [0], [0]
        if setup is not None:
            dotted = setup.replace("/", ".") + ".__booktest__"
            m = module(dotted)
            mods.append(dotted)

            def process_setup_teardown():
                begun[0] += 1
                depth[0] += 1
                yield
                depth[0] -= 1
                ended[0] += 1
            m.process_setup_teardown = process_setup_teardown
            lib.write(setup + "/__booktest__.py", "")
        lib.write(".booktest", "test_paths=%s\ndefault_tests=%s\n" % (",".join(dirs), ",".join(dirs)))
        if how == "-p2":
            w = par.World(ctx, late)
            status, text = w.run_main(None, ["-a", "-p2"], main=lambda tests, args: command(ctx, args))
        else:
            status, text = command(ctx, ["-a"] + how.split())
        ctx.check(sorted(e[0] for e in events) == sorted(want), lambda: "%r ran of %r" % (events, want))
        ctx.check((status == 0) == (verdict == "ok"), lambda: "status %r" % (status,))
        inside = setup is not None and setup.split("/")[0] in dirs
        for name, k in events:
            ctx.check((k > 0) == inside, lambda: "%s ran %s the set-up" % (name, "inside" if k else "without"))
        ctx.check(depth[0] == 0 and begun[0] == ended[0] and (begun[0] > 0) == inside, lambda: "set up %d times, torn down %d times" % (begun[0], ended[0]))
        ctx.reach("inside" if inside else "none")
    finally:
        gone(mods)


HARNESSES = [
    Harness("places", command_line, dict(dirs=["a", "b", "c"], paths=["?", "?,?", "?,b"], defaults=["?", "?/foo/one,c"], books=[None], argss=[[], ["*"]],
                                         sources=["project", "environment"], verdicts=["ok"]),
            dict(dirs=["a", "b", "c"], paths=["?", "?,?", "?,?,?"], defaults=["?", "?/foo/one,?", "skip:?", "?/foo"], books=[None, "out"],
                 argss=[[], ["*"], ["a"], ["b/foo/one", "skip:a"]], sources=["project", "environment", "home"], verdicts=["ok"]),
            bounds="two (three) configured places and selections of up to two entries, each any of three existing or a missing one",
            witness=("ran", "none")),
    Harness("defaults", command_line, dict(dirs=["run", "test", "book", "b"], paths=[None, "b,test"], defaults=[None, "run,test/foo/two"], books=[None, "lib", "deep/down"],
                                           argss=[[], ["*"], ["test"], ["b/foo"], ["skip:test/foo/one"]], sources=["project"], verdicts=["ok"]),
            bounds="with and without the settings, five argument lists", witness=("ran", "unknown")),
    Harness("status", command_line, dict(dirs=["a", "b"], paths=["?,b", "b", "a"], defaults=["?", "a,b"], books=[None], argss=[[], ["*"], ["b/foo/two"]],
                                         sources=["environment"], verdicts=["ok", "fail", "raise"], setups=[None, "a", "b", "b/deep"]),
            bounds="passing, failing and raising cases, with and without process set-up", witness=("ran", "set up", "unknown")),
    Harness("spelled", command_line, dict(dirs=["a", "b"], paths=["./?", "?/", ".", "./?/,b"], defaults=["a,b"], books=[None, "./lib"], argss=[[], ["b/foo"]],
                                          sources=["environment"], verdicts=["ok", "fail"], setups=[None, "a"]),
            dict(dirs=["a", "b", "c"], paths=["./?", "?/", ".", "./", "./?/,b", "./?,?/"], defaults=["?,b"], books=[None, "./lib", "lib/"], argss=[[], ["b/foo"]],
                 sources=["environment", "project"], verdicts=["ok", "fail"], setups=[None, "a", "b/deep"]),
            bounds="places and the output directory spelled in other ways", witness=("ran", "set up")),
    Harness("workers", workers, dict(dirs=["a", "b"], setups=[None, "a", "b/deep", "c"], verdicts=["ok", "fail", "raise"], late=1, flags=["-p2", "-v"]),
            dict(dirs=["a", "b"], setups=[None, "a", "b/deep", "c"], verdicts=["ok", "fail", "raise"], late=3, flags=["-p2", "-v"]),
            bounds="four cases in two workers, one (three) late ends", witness=("inside", "none")),
    Harness("three", command_line, dict(dirs=["a", "b", "c"], paths=["b,a,c"], defaults=["a,b,?", "?,b/foo/one,c"], books=[None], argss=[[], ["c", "a"]],
                                        sources=["project"], verdicts=["ok", "fail"]),
            bounds="three places, selections of three entries", witness=("ran",)),
]
