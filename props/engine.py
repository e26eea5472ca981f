"""engine test"""
import os, glob, pathlib, fnmatch, itertools
from pathlib import Path
from sx.ctx import Harness
from sx.core import charset
ASSUMPTIONS = []

def kind(c):
    match c:
        case " " | "\t":
            return "blank"
        case "a" if c != "a":
            return "never"
        case "." | "x":
            return "dot"
        case other:
            return "other " + other

def f(ctx):
    c = ctx.text("n", 2, charset("ab.c \t"))
    r = kind(c[0])
    ctx.check((r == "blank") == (c[0] in " \t"), "blank")
    ctx.check((r == "dot") == (c[0] == "."), "dot")
    ctx.check(r == "blank" or r == "dot" or r == "other " + c[0], "other")
    os.makedirs("d/e")
    ctx.assume(c != "..")
    name = "p" + c + "md"
    (Path("d") / "e" / name).write_text("hello" + c)
    ctx.check(Path("d/e").joinpath(name).read_text() == "hello" + c, "read")
    g = list(Path("d").rglob("*.md"))
    ctx.check((len(g) == 1) == (c[1] == "."), lambda: "rglob %r %r" % (g, name))
    ctx.check(len(list(Path("d").rglob("*"))) == 2, "all")
    ctx.check(len(glob.glob("d/**", recursive=True)) == 3, lambda: "glob %r" % glob.glob("d/**", recursive=True))
    ctx.check(len(glob.glob("d/*/p*")) == 1, "glob")
    ctx.check(len(glob.glob("d/*/pab*")) == (1 if c == "ab" else 0), "glob2")
    p = Path("d", "e", name)
    ctx.check(p.relative_to(Path("d")) == Path("e") / name, "rel")
    ctx.check(p.relative_to("d").parts[1] == name, "rel parts")
    ctx.check(str(p.relative_to("d")) == os.path.relpath("d/e/" + name, "d"), "relpath")
    ctx.check((Path("d/e/" + c) == Path("d/e/ab")) == (c == "ab"), "eq")
    ctx.check(Path("d/e/" + c + "/x").is_relative_to("d/e/ab") == (c == "ab"), "isrel")
    ctx.check(fnmatch.fnmatch(name, "p?.md") == (c[1] == "."), "fn")
    ctx.check(os.path.commonpath(["q/" + c[0] + "/z", "q/a/z"]) == ("q/a/z" if c[0] == "a" else "q" if c[0] != "." else "q"), "cp")
    ks = [(k, len(list(v))) for k, v in itertools.groupby(c)]
    ctx.check((len(ks) == 1) == (c[0] == c[1]), "groupby")
    with open(p) as fh:
        ctx.check(fh.read() == "hello" + c, "open")
    ctx.check(p.exists() and p.is_file() and not Path("d/e/zz").exists(), "exists")
    ctx.check(p.suffix == os.path.splitext(name)[1], "suffix")
    p.unlink()
    ctx.check(list(Path("d/e").iterdir()) == [], "unlink")
    ctx.reach("done")

HARNESSES = [Harness("f", f, dict(), bounds="", witness=("done",))]
