"""C35 Cases of different names never get mixed up"""
import os
from sx.ctx import Harness
from sx.core import charset
from props import lib, par, large
import booktest as bt

ASSUMPTIONS = ["names are slash separated paths without empty, '.' and '..' components; no case lies inside another one's name"]
NAME = charset("".join(chr(c) for c in range(32, 127) if chr(c) not in "\\"))


def apart(ctx, chars, prefixes, alphabet, ways, words):
    names = []
    for k in (0, 1):
        w = ctx.choice("word%d" % k, words[k])
        if w is None:
            w = ctx.choice("dir%d" % k, prefixes) + ctx.text("name%d" % k, (1, chars), alphabet)
        names.append(w)
    for x in names:
        for part in x.split("/"):
            ctx.assume(part != "" and part != "." and part != "..")
    a, b = names
    ctx.assume(a != b)
    ctx.assume(not a.startswith(b + "/"))
    ctx.assume(not b.startswith(a + "/"))
    way = ctx.choice("way", ways)
    # names of the program's own files, and a directory named like another case's file
    f = "C35-index" if a == "index" else "C35-report" if a == "cases" else "C35-directory" if a in [b + e for e in (".md", ".txt", ".log", ".bin", ".tmp")] else None
    apart_(ctx, a, b, way, f)


def rd(p):
    return None if os.path.isdir(p) else lib.read(p)


def apart_(ctx, a, b, way, finding):
    names = [a, b]
    def check(cond, msg):
        ctx.check(cond, msg, finding)
    lib.write(".booktest", "default_tests=*\n")
    got = []
    # a third case, which needs both results if the second gives one
    good = ctx.flag("second succeeds")
    if good:
        for n in names:
            ctx.assume(not ctx.eq(n, "~3") and not n.startswith("~3/"))

    def first(t):
        t.tln("first")
        for i in range(10):
            t.iln("information")
        t.tln("kept" if not os.path.exists(t.tmp_path("of the second")) and not os.path.exists(t.tmp_path("of the first")) else "mixed up")
        with open(t.tmp_path("of the first"), "w") as f:
            f.write("1")
        with open(t.file("file"), "w") as f:
            f.write("1")
        return "result 1"

    def second(t, v):
        got.append(v)
        t.tln("second")
        t.tln("kept" if not os.path.exists(t.tmp_path("of the first")) else "mixed up")
        with open(t.tmp_path("of the second"), "w") as f:
            f.write("2")
        with open(t.file("file"), "w") as f:
            f.write("2")
        if not good:
            t.fail().iln("bad")
        else:
            t.iln("bad")
        return "result 2"
    cases = [(a, first), (b, bt.depends_on(first)(second))]
    if good:
        def last(t, v, w):
            got.append((v, w))
        cases.append(("~3", bt.depends_on(cases[0][1], cases[1][1])(last)))

    def run(args):
        if way == "-p2":
            return par.World(ctx, 0, shared=False).run_main(cases, ["-p2"] + args)
        try:
            return lib.main(cases, args)
        except OSError as e:
            check(False, lambda: "the run fails with %r" % e)
            return 1, ""
    rc, text = run(["-a"])
    for again in (False, True):
        recs = lib.read_cases("books/.out/cases.txt")
        check(ctx.eq(sorted([(c[0], c[1]) for c in recs]), sorted([(a, "OK"), (b, "OK"), ("~3", "OK")] if good else [(a, "OK"), (b, "FAIL")])), lambda: "records %r of %r" % (recs, names))
        check((rc == 0) == good, "exit status")
        check(got == ["result 1"] + ([("result 1", "result 2")] if good else []), lambda: "given %r" % got)
        check(rd("books/%s.md" % a) == "first\n" + "information\n" * 10 + "kept\n", lambda: "the snapshot of %s is %r" % (a, rd("books/%s.md" % a)))
        check(rd("books/%s/file" % a) == "1", lambda: "the snapshot's file of %s is %r" % (a, rd("books/%s/file" % a)))
        if good:
            check(rd("books/%s.md" % b) == "second\nkept\nbad\n", lambda: "the snapshot of %s is %r" % (b, rd("books/%s.md" % b)))
            check(rd("books/%s/file" % b) == "2", lambda: "the snapshot's file of %s is %r" % (b, rd("books/%s/file" % b)))
        else:
            check(rd("books/.out/%s.md" % b) == "second\nkept\nbad\n", lambda: "the output of %s is %r" % (b, rd("books/.out/%s.md" % b)))
            check(rd("books/.out/%s/file" % b) == "2", "file of %s" % b)
            check(not os.path.exists("books/%s.md" % b), lambda: "a failed case has a snapshot")
        if again:
            check(rd("books/.out/%s/file" % a) == "1", "output file of the first case")
            break
        got.clear()
        rc, text = run([])
    # in the report and the index, each is one entry
    rc, out = lib.main(cases, ["-l"])
    check(ctx.eq(out, "  %s\n  %s\n" % (a, b) + ("  ~3\n" if good else "")), lambda: "lists %r" % out)
    rc, out = lib.main(cases, ["--garbage"])
    check(all([l.startswith("books/.out/") for l in lib.lines(out)] if out else []), lambda: "garbage %r" % out)
    ctx.reach(way)


HARNESSES = [
    Harness("names", apart, dict(chars=2, prefixes=["", "s/"], alphabet=NAME, ways=["serial", "-p2"], words=[[None], ["s/a", "s.a", "a/b/c"]]),
            dict(chars=2, prefixes=["", "s/"], alphabet=NAME, ways=["serial", "-p2"], words=[[None], [None]]),
            bounds="one case (two cases) of any name of up to two characters, at the top or in a directory", witness=["serial", "-p2"]),
    Harness("words", apart, dict(chars=1, prefixes=[""], alphabet=NAME, ways=["serial", "-p2"],
                                 words=[["index", "cases", "output", "metrics", "x.md", "x.out", "x.tmp", "x.txt", "x.log", "x.bin"], ["x", "s/index"]]),
            None, bounds="names like those of the program's own files", witness=["serial", "-p2"]),
    Harness("escaped", apart, dict(chars=1, prefixes=[""], alphabet=NAME, ways=["serial", "-p2"],
                                   words=[["a%2Eb", "a%2Fb", "a%b", "a_b", "a%252Eb"], ["a.b", "a/b", "a%25b", "a__b", "a%2Eb"]]),
            None, bounds="names like the program's spelling of others", witness=["serial", "-p2"]),
    Harness("long", large.names, dict(lengths=[4, 40, 120, 200]),
            dict(lengths=[4, 40, 63, 64, 65, 120, 127, 128, 129, 200]),
            bounds="names of up to 200 characters, twelve directories deep, differing in one place", timeout=120, witness=("done",)),
]
