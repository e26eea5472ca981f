"""C29 A crash never leaves a torn snapshot or stored result behind"""
import os, pickle
from sx.ctx import Harness
from sx.env import _real
from props import lib, par
from props.c14 import Crash, Interrupter
import booktest as bt

ASSUMPTIONS = ["a crash keeps what was handed to the operating system; of what was only buffered any part may be kept",
               "crashes happen before and after each change of the file system and inside tests",
               "renaming a file is atomic, as POSIX says"]


class Crasher(Interrupter):
    """also keeps any part of what was written to files that are still open"""

    def __call__(self, what, path):
        if not self.done and self.n == self.k and self.keep is not None:
            keep = self.keep()
            for f in self.ctx.env.opened:
                if f.closed or keep == "none":
                    continue
                before = os.path.getsize(f.name)
                f.flush()
                after = os.path.getsize(f.name)
                if keep == "half":
                    _real["truncate"](f.name, before + (after - before) // 2)
        return super().__call__(what, path)


# larger than the buffer of a file, so that parts of it are written early
BIG = "x" * 70000


def value(ctx, name, kinds):
    return ctx.choice(name, kinds)


def crashes(ctx, points, values, configs, sels, rounds, keeps, deps):
    """a crash at any point of a run over any state, then running the dependent"""
    now = {}
    got = []

    def fa(t):
        t.tln("a")
        t.tln(now["text"])
        ctx.env.effect("test", "a")
        if now["file"]:
            with open(t.file("f.txt"), "w") as f:
                f.write(now["text"])
        return now["value"]

    @bt.depends_on(fa)
    def fc(t, v):
        got.append(v)
        t.tln("c")
    tests = bt.Tests([["a", fa], ["c", fc]])
    lib.write("books/c.md", "c\n")
    texts, results = [None], []
    if ctx.flag("snapshot"):
        now.update(text="first\n" * 3, value=ctx.choice("first value", values[:1]), file=True)
        lib.main(tests, ["-a"] + (["a"] if ctx.flag("only a") else []))
        texts = [lib.read("books/a.md")]
        if now["value"] is not None:
            results.append(now["value"])
    for r in range(rounds):
        now.update(text=["second", "third"][r] + "\n" + "x\n" * 4, value=ctx.choice("value%d" % r, values), file=ctx.flag("file%d" % r))
        config = ctx.choice("config%d" % r, configs)
        sel = ctx.choice("run%d" % r, sels)
        part = []

        def keep():
            part.append(ctx.choice("kept%d" % r, keeps))
            return part[0]
        stop = Crasher(ctx, ctx.int("point%d" % r, 0, points), keep)
        ctx.env.effect_hook, ctx.env.after_effects, ctx.env.opened = stop, True, []
        crashed = False
        try:
            lib.main(tests, config + sel)
        except Crash:
            crashed = True
        ctx.env.effect_hook, ctx.env.after_effects = None, False
        texts.append("a\n" + now["text"] + "\n")
        results.append(now["value"])
        for f in ctx.env.opened:
            try:
                f.close()
            except Exception:
                pass
        if crashed:
            stop.restore()
            ctx.reach("crashed")
        else:
            ctx.reach("done")
        text = lib.read("books/a.md")
        ctx.check(text in texts, lambda: "the snapshot is %.80r after a crash, neither the old nor the new one" % (text,))
        ctx.check(lib.read("books/c.md") == "c\n", "the snapshot of another case changed")
        ctx.env.fresh_process()
        bin_path = "books/.out/a.bin"
        if os.path.exists(bin_path):
            try:
                with _real["open"](bin_path, "rb") as f:
                    v = pickle.load(f)
            except Exception as e:
                v = e
            ctx.check(not isinstance(v, Exception) and v in results, lambda: "the stored result is %.80r after a crash" % (v,))
    # a later run of the dependent
    now.update(value=results[-1])
    got.clear()
    rc, out = lib.main(tests, ctx.choice("later", [["c"], ["-c", "c"]]))
    verdict = [c[1] for c in lib.read_cases("books/.out/cases.txt") if c[0] == "c"]
    ctx.check(verdict == ["OK"] and all([v in results for v in got]), lambda: "the dependent is %r afterwards, with %.80r: %.500s" % (verdict, got, out))


class Unstorable:
    def __init__(self, e):
        self.e = e

    def __reduce__(self):
        raise self.e


class Local:
    pass


def broken_results(ctx, kinds, sels, parallel):
    """results that cannot be stored"""
    made = {"lambda": lambda: lambda: 1, "raises": lambda: Unstorable(ValueError("no")), "type error": lambda: Unstorable(TypeError("no")),
            "inside": lambda: [1, {"k": Unstorable(RuntimeError("no"))}], "generator": lambda: (i for i in range(2)),
            "recursion": lambda: Unstorable(RecursionError("deep")), "file": lambda: open("f.txt", "w"), "fine": lambda: 5, "nothing": lambda: None}
    ran = []
    kind = {}

    def fa(t):
        ran.append("a")
        t.tln("a")
        return made[kind["a"]]()

    def fb(t):
        ran.append("b")
        t.tln("b")
        return made[kind["b"]]()

    @bt.depends_on(fb)
    def fc(t, v):
        ran.append("c")
        t.tln("c")

    def fd(t):
        ran.append("d")
        t.tln("d")
    cases = [("a", fa), ("b", fb), ("c", fc), ("d", fd)]
    for n, _ in cases:
        if n != "d" or not ctx.flag("no snapshot of d"):
            lib.write("books/%s.md" % n, n + "\n")
    had = ctx.flag("stored before")
    if had:
        kind.update(a="fine", b="fine")
        lib.run(cases, None, ["a", "b"])
        ran.clear()
    kind.update(a=ctx.choice("a", kinds), b=ctx.choice("b", kinds))
    ctx.env.fresh_process()
    r = lib.run(cases)
    ctx.check(ran == ["a", "b", "c", "d"] or (ran == ["a", "b", "d"] and kind["b"] not in ("fine",)), lambda: "ran %r" % ran)
    for n in ("a", "b"):
        want = "OK" if kind[n] in ("fine", "nothing") else "FAIL"
        ctx.check(r.of(n) == want, lambda: "%s is %s with a result %s" % (n, r.of(n), kind[n]))
        if kind[n] not in ("fine", "nothing"):
            p = "books/.out/%s.bin" % n
            if os.path.exists(p):
                with _real["open"](p, "rb") as f:
                    try:
                        v = pickle.load(f)
                    except Exception as e:
                        v = e
                ctx.check(had and v == 5, lambda: "stored %r" % v)
            ctx.reach("broken")
    if kind["b"] == "fine":
        ctx.check(r.of("c") == "OK", lambda: "c is %s" % r.of("c"))
        ctx.reach("fine")
    ctx.check(r.of("d") == ("OK" if os.path.exists("books/d.md") else "DIFF"), lambda: "d is %s: %s" % (r.of("d"), r.text))


HARNESSES = [
    Harness("crash", crashes, dict(points=60, values=["v", None], configs=[[], ["-a"]], sels=[[], ["a"]], rounds=1,
                                   keeps=["none", "half"], deps=1),
            dict(points=60, values=["v", 7, BIG, None], configs=[[], ["-a"], ["-u"], ["-c"], ["-c", "-a"]], sels=[[], ["a"], ["c"]], rounds=2,
                 keeps=["none", "half", "all"], deps=1),
            bounds="every point of a run of two cases, old state or none", witness=("crashed", "done")),
    Harness("unstorable", broken_results, dict(kinds=["lambda", "raises", "inside", "fine", "nothing"], sels=[], parallel=False),
            dict(kinds=["lambda", "raises", "type error", "inside", "generator", "recursion", "file", "fine", "nothing"], sels=[], parallel=False),
            bounds="results that cannot be stored, alone and as a dependency", witness=("broken", "fine")),
]
