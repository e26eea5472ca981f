"""C22 Cleaning removes exactly the files no test owns"""
import os
from sx.ctx import Harness
from sx.core import charset
from props import lib, large
import booktest as bt

ASSUMPTIONS = ["a file system with one name per file; symbolic links to directories are not followed"]
SMALL = charset("ab/.")
WIDE = charset("ab/. -_[*~")


def is_path(ctx, s):
    """no empty, '.' or '..' component"""
    ctx.assume(len(s) > 0 and s[0] != "/" and s[len(s) - 1] != "/")
    for part in s.split("/"):
        ctx.assume(part != "" and part != "." and part != "..")


def owned(ctx, file, tests):
    """the file belongs to a test or is the index"""
    if file == "index.md":
        return True
    for t in tests:
        if file == t + ".md" or file.startswith(t + "/"):
            return True
    return False


def run(tests, args, root):
    return lib.main([(n, lambda t: None) for n in tests], args, root=root)


def names(ctx, ntests, tlen, nfiles, flen, alphabet, suffixes, root="books", dirs=("",)):
    """any test names against any file names"""
    root = ctx.choice("root", root) if not isinstance(root, str) else root
    tests = []
    for i in range(ntests):
        t = ctx.choice("in%d" % i, dirs) + ctx.text("test%d" % i, tlen, alphabet)
        is_path(ctx, t)
        tests.append(t)
    if ntests == 2:
        ctx.assume(tests[0] != tests[1])
    files = []
    for i in range(nfiles):
        f = ctx.choice("at%d" % i, dirs) + ctx.text("file%d" % i, flen, alphabet) + ctx.choice("suffix%d" % i, suffixes)
        is_path(ctx, f)
        for g in files:
            # neither the same nor a directory of the other
            ctx.assume(not (f == g or f.startswith(g + "/") or g.startswith(f + "/")))
        files.append(f)
        lib.write(os.path.join(root, f), "content %d" % i)
    out = root.startswith("books")
    if out:
        lib.write("outside/x.md", "out")
        lib.write("booksx/x.md", "out")
    keep = [owned(ctx, f, tests) for f in files]
    rc, text = run(tests, ["--garbage"], root)
    shown = text.split("\n")
    ctx.check(shown[-1] == "", "unfinished line")
    ctx.check(rc == 0, "exit status")
    shown = shown[:-1]
    want = [os.path.join(root, f) for f, k in zip(files, keep) if not k]
    ctx.check(len(shown) == len(want), lambda: "garbage lists %r instead of %r, tests %r" % (shown, want, tests))
    for w in want:
        ctx.check(ctx.any([ctx.eq(w, s) for s in shown]), lambda: "garbage lists %r instead of %r, tests %r" % (shown, want, tests))
    for i, f in enumerate(files):
        ctx.check(lib.read(os.path.join(root, f)) == "content %d" % i, "listing changed a file")
    rc, text = run(tests, ["--clean"], root)
    ctx.check(rc == 0, "exit status")
    for i, (f, k) in enumerate(zip(files, keep)):
        c = lib.read(os.path.join(root, f))
        if k:
            ctx.reach("kept")
            ctx.check(c == "content %d" % i, lambda: "cleaning removed %r of the tests %r" % (f, tests))
        else:
            ctx.reach("removed")
            ctx.check(c is None, lambda: "cleaning left %r, tests %r" % (f, tests))
    ctx.check(not out or lib.read("outside/x.md") == "out" and lib.read("booksx/x.md") == "out", "cleaning removed a file outside")
    rc, text = run(tests, ["--garbage"], root)
    ctx.check(text == "", lambda: "garbage after cleaning: %r" % text)


def kinds(ctx):
    """files of runs, companion directories, symbolic links and the arguments of the command"""
    tests = ["a/t", "b"]
    files = {"a/t.md": True, "a/t/.env.json": True, "a/t/deep/x.png": True, "a/t2/x": False, "a/t.md.bak": False, "a/t": None,
             "b.md": True, "b/x": True, "index.md": True, "a/index.md": False, ".out/a/t.md": False, ".out/cases.txt": False,
             ".out/a/t.bin": False, "c/.hidden": False, "index.md2": False, "t.md": False}
    for f, k in files.items():
        if k is not None:
            lib.write("books/" + f, f)
    lib.write("outside/x", "out")
    link = ctx.choice("link", [None, "dir", "file", "broken", "owned dir"])
    if link == "dir":
        os.symlink("../outside", "books/link")
    elif link == "file":
        os.symlink("../outside/x", "books/link")
    elif link == "broken":
        os.symlink("nowhere", "books/link")
    elif link == "owned dir":
        os.symlink("../../outside", "books/b/link")
    args = ctx.choice("arguments", [[], ["a"], ["b"], ["skip:a"], ["-c"], ["-r"]])
    rc, text = run(tests, ["--garbage"] + args, "books")
    shown = text.split("\n")[:-1]
    want = ["books/" + f for f, k in files.items() if k is False] + (["books/link"] if link in ("file", "broken") else [])
    ctx.check(sorted(shown) == sorted(want), lambda: "garbage %r instead of %r" % (sorted(shown), sorted(want)))
    rc, text = run(tests, ["--clean"] + args, "books")
    ctx.check(rc == 0, "exit status")
    left = sorted(p for p, c in lib.tree("books").items() if not p.endswith("/") and not p.startswith("link"))
    keep = sorted(f for f, k in files.items() if k)
    ctx.check([p for p in left if not p.startswith("b/link")] == keep, lambda: "left %r instead of %r" % (left, keep))
    ctx.check(lib.read("outside/x") == "out", "cleaning reached outside")
    ctx.check(not os.path.lexists("books/link") or link == "dir", "the link was left")
    ctx.reach("done")


def lifecycle(ctx):
    """after real runs with snapshots nothing of an existing test is garbage, and everything of a removed one is"""
    def mk(name):
        def f(t):
            t.tln("line of " + name)
            if files[name]:
                with open(t.file("data.txt"), "w") as h:
                    h.write(name)
        return f
    pool = ["x", "x/y", "xy", "a/x"]
    files = {n: ctx.flag("file of " + n) for n in pool}
    lib.main([(n, mk(n)) for n in pool], ["-a", "*"])
    before = {p: c for p, c in lib.tree("books").items() if not p.endswith("/")}
    ctx.check(all(n + ".md" in before for n in pool), lambda: sorted(before))
    still = [n for n in pool if ctx.flag("still " + n)]
    rc, text = lib.main([(n, mk(n)) for n in still], ["--clean"])
    after = {p: c for p, c in lib.tree("books").items() if not p.endswith("/")}
    want = {p: c for p, c in before.items() if owned(ctx, p, still)}
    ctx.check(after == want, lambda: "left %r instead of %r, tests %r" % (sorted(after), sorted(want), still))
    if still:
        # the accepted results are still good
        rc, text = lib.main([(n, mk(n)) for n in still], ["*"])
        ctx.check(rc == 0, lambda: text)
    ctx.reach("done")


HARNESSES = [
    Harness("names", names, dict(ntests=1, tlen=(1, 3), nfiles=1, flen=(1, 4), alphabet=SMALL, suffixes=["", ".md", "/x"]),
            dict(ntests=1, tlen=(1, 4), nfiles=1, flen=(1, 5), alphabet=WIDE, suffixes=["", ".md", "/x"]),
            bounds="any test name of up to three (four) characters against any file name of up to four (five) and a suffix",
            witness=("kept", "removed")),
    Harness("two", names, dict(ntests=2, tlen=(1, 1), nfiles=1, flen=(1, 2), alphabet=SMALL, suffixes=["", ".md", "/x.md"], dirs=("", "t/"), root=("books", "books/", ".", "./b")),
            dict(ntests=2, tlen=(1, 2), nfiles=2, flen=(1, 2), alphabet=SMALL, suffixes=["", ".md", "/x.md"], dirs=("", "t/"), root=("books", "books/")),
            bounds="two tests and one file (two) in the same or another directory", witness=("kept", "removed")),
    Harness("kinds", kinds, bounds="fifteen kinds of files, links, and the arguments of the command", witness=("done",)),
    Harness("lifecycle", lifecycle, bounds="any subset of four tests removed after an accepted run", witness=("done",)),
    Harness("large", large.cleaned, dict(n=60, depth=10),
            dict(n=300, depth=30),
            bounds="60 cases, and one ten directories deep", timeout=120, witness=("stray", "none")),
]
