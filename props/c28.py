"""C28 Files a test asks for lie in its own directories and are linked correctly"""
import os
from sx.ctx import Harness
from sx.core import charset
from props import lib, par, large
import booktest as bt

ASSUMPTIONS = ["names are plain file names: no '/', '.' or '..', or relative paths below; no test's name ends with .tmp or extends another's by a component"]
NAME = charset("".join(chr(c) for c in range(33, 127) if chr(c) not in "/") + " \u00e9")
PATHCH = charset("ab/.")


def listing(d):
    out = []
    for root, dirs, files in os.walk(d):
        out += [os.path.join(root, f) for f in files] + [os.path.join(root, x) + "/" for x in dirs]
    return out


def inside(ctx, p, d):
    return p.startswith(d + "/")


def paths(ctx, alphabet, chars, tests, out):
    """where files with any name go"""
    test = ctx.choice("test", tests)
    name = ctx.text("name", (1, chars), alphabet)
    ctx.assume(not (name == "." or name == ".."))
    top = ctx.choice("out", out)
    base = os.path.join(top, test)
    seen = []

    def f(t):
        kind = ctx.choice("kind", ["file", "tmp_file", "tmp_path", "tmp_dir"])
        p = getattr(t, kind)(name)
        own = base if kind == "file" else base + ".tmp"
        ctx.check(ctx.eq(p, own + "/" + name), lambda: "%s of %r is %r, not in %r" % (kind, name, p, own))
        if kind == "tmp_dir":
            ctx.check(os.path.isdir(p), "no directory")
            p = os.path.join(p, "inner")
        else:
            ctx.check(os.path.isdir(os.path.dirname(p)) and not os.path.exists(p), "the file cannot be new")
        with open(p, "w") as h:
            h.write("x")
        r = t.rel_path(p)
        ctx.check(r is not None, lambda: "no relative path for %r" % p)
        up = os.path.dirname(base)
        ctx.check(ctx.eq(up + "/" + r if up else r, p), lambda: "%r of %r leads elsewhere" % (r, p))
        # and from the snapshot, which lies in the same place of the books directory
        t.iln("[x](%s)" % r)
        seen.append(p)
        # a second file in the same place
        q = getattr(t, kind)(name + "2")
        ctx.check(not ctx.eq(q, p), "two names share a file")
    lib.run([(test, f)], out=top)
    ctx.check(len(seen) == 1 and lib.read(seen[0]) == "x", lambda: lib.read(base + ".md"))
    ctx.reach("done")


def relative(ctx, chars, tests):
    """the relative path of any path"""
    test = ctx.choice("test", tests)
    p = ctx.text("path", (0, chars), PATHCH)
    base = os.path.dirname(os.path.join("o", test))
    form = ctx.choice("form", ["in base", "beside base", "absolute", "free"])
    absolute = form == "absolute"
    if form == "in base":
        p = base + "/" + p
    elif form == "beside base":
        p = base + p
    elif absolute:
        p = os.path.abspath(base) + p
    ctx.assume(len(p) > 0)
    got = []

    def f(t):
        got.append(t.rel_path(p))
    lib.run([(test, f)], out="o")
    ctx.check(len(got) == 1, "failed")
    # the parts of the absolute path
    parts = [] if p.startswith("/") else os.getcwd().split("/")[1:]
    for x in p.split("/"):
        if x == "..":
            parts = parts[:-1]
        elif x != "" and x != ".":
            parts = parts + [x]
    top = os.getcwd().split("/")[1:] + base.split("/")
    under = len(parts) >= len(top) and ctx.all([ctx.eq(a, b) for a, b in zip(parts, top)])
    under = bool(under)
    if under:
        ctx.reach("inside")
        ctx.check(got[0] is not None and ctx.eq(got[0], "/".join(parts[len(top):])), lambda: "relative path of %r to %r is %r" % (p, base, got[0]))
    else:
        ctx.reach("outside")
        ctx.check(got[0] is None, lambda: "%r is outside of %r, but its relative path is %r" % (p, base, got[0]))


def emptied(ctx, nruns, pool, args):
    """what is there when a test starts, after earlier runs of it and of others"""
    here = {}

    def mk(n):
        def f(t):
            k = n + " run %d" % run[0]
            found = listing(os.path.join("books/.out", n)) + listing(os.path.join("books/.out", n + ".tmp"))
            ctx.check(found == [], lambda: "%s starts with %r" % (k, found))
            a, b, c = t.file("f"), t.tmp_file("t"), t.tmp_dir("d")
            for p in (a, b, os.path.join(c, "x")):
                ctx.check(not os.path.exists(p), lambda: "%s exists" % p)
                with open(p, "w") as h:
                    h.write(k)
            t.tln("run %d" % run[0])
            here[n] = run[0]
            if ctx.flag("raises " + k):
                raise ValueError("boom")
        return f
    run = [0]
    tests = [(n, mk(n)) for n in pool]
    for k in range(nruns):
        run[0] = k
        a = ctx.choice("run %d" % k, args)
        if "-p2" in a:
            par.World(ctx, 0).run_main(bt.Tests([list(x) for x in tests]), a)
        else:
            lib.main(tests, a)
        for n, at in here.items():
            for p in ("%s/f" % n, "%s.tmp/t" % n, "%s.tmp/d/x" % n):
                p = os.path.join("books/.out", p)
                accepted = "-a" in a and not p.startswith("books/.out/%s.tmp" % n)
                if at == k and accepted:
                    continue
                if at == k:
                    ctx.check(lib.read(p) == "%s run %d" % (n, at), lambda: "%s holds %r" % (p, lib.read(p)))
    ctx.reach("done")


def hashed(ctx, chars, before=(0,), after=(0,)):
    """files renamed to the hash of what they hold"""
    start, end = "s" * ctx.choice("before", before), "e" * ctx.choice("after", after)
    text = start + ctx.text("content", (0, chars), NAME) + end
    other = start + ctx.text("other", (0, chars), NAME) + end
    names = []

    def f(t):
        for i, c in enumerate((text, other)):
            p = t.file("f%d" % i)
            with open(p, "w") as h:
                h.write(c)
            q = t.rename_file_to_hash(p, ".txt")
            ctx.check(inside(ctx, q, "books/.out/a/x") and q.endswith(".txt") and not os.path.exists(p), lambda: "renamed to %r" % q)
            ctx.check(ctx.eq(lib.read(q), c), "the content was lost")
            names.append(q)
    r = lib.run([("a/x", f)])
    ctx.check(len(names) == 2, lambda: lib.read("books/.out/a/x.md"))
    same = bool(ctx.eq(text, other)) if len(text) == len(other) else False
    ctx.check((names[0] == names[1]) == same, "the name does not tell the content")
    ctx.reach("same" if same else "different")


HARNESSES = [
    Harness("paths", paths, dict(alphabet=NAME, chars=2, tests=["x", "a/x", "a b/c/x y"], out=["books/.out", "o"]),
            dict(alphabet=NAME, chars=3, tests=["x", "a/x", "a b/c/x y"], out=["books/.out", "o", "./o/p"]),
            bounds="any file name of up to two (three) characters", witness=("done",)),
    Harness("relative", relative, dict(chars=4, tests=["x", "a/x"]), dict(chars=5, tests=["x", "a/x", "a/b/x"]),
            bounds="any path of up to four (five) characters of the alphabet ab/. alone and after the base directory", witness=("inside", "outside")),
    Harness("emptied", emptied, dict(nruns=2, pool=["x", "xy", "a/x"], args=[["*"], ["x"], ["-a", "*"], ["-p2", "*"], ["-c", "*"]]),
            dict(nruns=3, pool=["x", "xy"], args=[["*"], ["x"], ["-a", "*"], ["-p2", "*"], ["-c", "*"]]),
            bounds="two (three) runs of each kind of three tests", witness=("done",)),
    Harness("hashed", hashed, dict(chars=1), dict(chars=2), bounds="any two contents of up to one (two) characters", witness=("same", "different")),
    Harness("large", hashed, dict(chars=1, before=[4095, 4096, 8192, 70000], after=[0, 5000]),
            bounds="the same at the start, at the end and in the middle of files of up to 75000 characters", witness=("same", "different")),
    Harness("huge", hashed, dict(chars=1, before=[1 << 20, 1 << 21], after=[0]), dict(chars=1, before=[1 << 20, 1 << 21, 1 << 24], after=[0, 1]),
            bounds="the same at the end of files of 1 and 2 (and 16) MB", witness=("same", "different")),
    Harness("many files", large.asked_files, dict(n=40, depth=10),
            dict(n=200, depth=30),
            bounds="40 files of one test, up to ten directories deep", timeout=120, witness=("done",)),
]
