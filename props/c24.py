"""C24 Configuration sources are layered and do not leak between runs"""
import os
from sx.ctx import Harness
from sx.core import charset, ALL_UNICODE
from props import lib, large
import booktest as bt

ASSUMPTIONS = ["files are text with lines of the form key=value; blanks around a whole line do not count",
               "files and values have no characters that are line ends for some readers only (vertical tab, form feed, U+2028 and the like)",
               "a new process is modelled by resetting the module level state of the package"]
# without what Python's splitlines() takes for a line end, too
TEXT = ALL_UNICODE.minus(charset("\x00\r\n\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029"))
PRINT = charset("".join(chr(c) for c in range(32, 127)))
FLAGS = {"-i": "interactive", "-I": "always_interactive", "-v": "verbose", "-L": "print_logs", "-f": "fail_fast", "-c": "continue",
         "-r": "refresh_sources", "-u": "update", "-a": "accept", "-s": "complete_snapshots", "-S": "refresh_snapshots"}
VALUES = {"-md-viewer": "md_viewer", "-diff-tool": "diff_tool"}


def home():
    os.environ["HOME"] = os.path.abspath("home")
    for k in list(os.environ):
        if k.startswith("BOOKTEST_"):
            del os.environ[k]


def typed(v):
    """'1' and '0' mean true and false"""
    if v == "1":
        return True
    if v == "0":
        return False
    return v


def same(ctx, a, b):
    if isinstance(a, str) and isinstance(b, str):
        return ctx.eq(a, b)
    return type(a) is type(b) and a == b


def seen_config(args=("*",), cache=None):
    """the settings a test sees in a run of the command line"""
    seen = []

    def f(t):
        seen.append(dict(t.config))
    lib.main([("x", f)], list(args), cache=cache)
    return seen[0] if seen else None


def blank(c):
    return c.isspace()


def model(text):
    """the settings in the text of a file"""
    out = {}
    for line in text.split("\n"):
        if line.startswith("#") or line.strip() == "":
            continue
        k, v = line.strip().split("=", 1)
        out[k] = typed(v)
    return out


def files(ctx, where, nlines, shapes, alphabet, chars):
    """any file text, in the project's or the home directory"""
    home()
    place = ctx.choice("where", where)
    text = ""
    for i in range(nlines):
        shape = ctx.choice("line%d" % i, shapes)
        if shape == "comment":
            line = "#" + ctx.text("c%d" % i, (0, chars), alphabet)
        elif shape == "blank":
            line = ctx.choice("b%d" % i, ["", " ", "\t "])
        elif shape == "free":
            line = ctx.text("f%d" % i, (1, chars), alphabet)
            ctx.assume("=" in line.strip() or line.startswith("#") or line.strip() == "")
        else:
            line = ctx.choice("k%d" % i, ["k", "md_viewer"]) + "=" + ctx.text("v%d" % i, (0, chars), alphabet)
        text += line + ("\n" if i < nlines - 1 or ctx.flag("last line end") else "")
    lib.write(os.path.join("home" if place == "home" else ".", ".booktest"), text)
    got = seen_config()
    ctx.check(got is not None, "the run failed")
    want = model(text)
    got = {k: v for k, v in got.items()}
    ctx.check(len(got) == len(want), lambda: "settings %r instead of %r for %r" % (got, want, text))
    for k in want:
        ctx.check(k in got, lambda: "settings %r instead of %r for %r" % (got, want, text))
        ctx.check(same(ctx, got[k], want[k]), lambda: "settings %r instead of %r for %r" % (got, want, text))
    ctx.reach("done")


def layers(ctx, keys, sources, alphabet):
    """each source has the setting or not, with any value"""
    home()
    key, flag = ctx.choice("setting", keys)
    have = {}
    for s in sources:
        if s == "command":
            if flag is None:
                continue
            if ctx.flag("has command"):
                have[s] = True if flag in FLAGS else "c" + ctx.char("command", alphabet) if flag in VALUES else 3
        elif ctx.flag("has " + s):
            have[s] = ctx.char(s, alphabet)
    for s, p in (("home", "home"), ("project", ".")):
        if s in have or s == "home" and "environment" not in have:
            lib.write(os.path.join(p, ".booktest"), "# comment\nother_%s=1\n" % s + ("%s=%s\n" % (key, have[s]) if s in have else ""))
    if "environment" in have:
        os.environ["BOOKTEST_" + key.upper()] = have["environment"]
    os.environ["BOOKTESTX"] = "no"
    os.environ["XBOOKTEST_" + key.upper()] = "no"
    args = ["*"]
    if "command" in have:
        args = [flag] + ([have["command"]] if flag in VALUES else ["3"] if flag == "--parallel-count" else []) + args
    want = None
    for s in ("home", "project", "environment"):
        if s in have:
            v = have[s]
            # lines are trimmed
            want = typed(v.strip() if s != "environment" else v)
    if "command" in have:
        want = have["command"]
    how = ctx.choice("seen", ["config"] if key in ("parallel", "coverage", "diff_tool", "log_viewer") else ["test"])
    if how == "test":
        if key in ("interactive", "always_interactive", "continue"):
            ctx.env.input_hook = lambda prompt: "q"
        got = seen_config(args)
        ctx.check(got is not None, "the test did not run")
        ctx.check((key in got) == (want is not None), lambda: "%s is %r instead of %r, from %r" % (key, got.get(key), want, have))
        if want is not None:
            ctx.check(same(ctx, got[key], want), lambda: "%s is %r instead of %r, from %r" % (key, got[key], want, have))
    else:
        rc, text = lib.main([("x", lambda t: None)], ["--config"] + args)
        shown = [l[len(key) + 1:] for l in text.split("\n") if l.startswith(key + "=")]
        ctx.check(len(shown) == (want is not None), lambda: "shown %r, from %r" % (text, have))
        if want is not None:
            ctx.check(ctx.eq(shown[0], str(want)), lambda: "shown %r instead of %r" % (shown[0], want))
    ctx.reach("command" if "command" in have else "other")


def leak(ctx, nflags):
    """settings of one run are not there in the next"""
    home()
    lib.write(".booktest", "accept=0\nmd_viewer=project\nfree=x\n")
    if ctx.flag("environment"):
        os.environ["BOOKTEST_DIFF_TOOL"] = "environment"
    base = seen_config()
    lib.write("unrelated", "")
    extra = ctx.flag("extra")
    pool = [f for f in FLAGS if f not in ("-i", "-I", "-c")]
    args = []
    for k in range(nflags):
        f = ctx.choice("flag%d" % k, [None] + pool + list(VALUES))
        if f is not None:
            args += [f] + (["tool%d" % k] if f in VALUES else [])
    want = dict(base)
    i = 0
    while i < len(args):
        if args[i] in VALUES:
            want[VALUES[args[i]]] = args[i + 1]
            i += 1
        else:
            want[FLAGS[args[i]]] = True
        i += 1
    seen = []

    def f(t):
        seen.append(dict(t.config))
        t.config["set by test"] = "x"
        if ctx.flag("raises"):
            raise ValueError("boom")
    tests = bt.Tests([["x", f]])
    if extra:
        import argparse
        p = argparse.ArgumentParser()
        tests.setup_parser(p)
        tests.exec_parsed("books", p.parse_args(args + ["*"]), None, {"extra": "e", "md_viewer": "extra"})
        want.setdefault("extra", "e")
        if "-md-viewer" not in args:
            want["md_viewer"] = "extra"
    else:
        lib.main(tests, args + ["*"])
    ctx.check(seen[0] == want, lambda: "settings %r instead of %r" % (seen[0], want))
    again = seen_config()
    again.pop("set by test", None)
    ctx.check(again == base, lambda: "after a run with %r the settings are %r instead of %r" % (args, again, base))
    # and later runs of this process still see all sources
    rc, text = lib.main([("x", f)], ["--config", "*"])
    ctx.check(sorted(l for l in text.split("\n") if l and not l.startswith("set by")) == sorted("%s=%s" % kv for kv in base.items()), lambda: text)
    ctx.reach("done")


KEYS = ["diff_tool", "fast_diff_tool", "md_viewer", "log_viewer", "test_paths", "default_tests", "books_path"]


def setup(ctx, symbolic, alphabet, chars):
    """what the set-up command was told is what later runs see"""
    home()
    kept = None
    if ctx.flag("has file"):
        kept = ctx.text("other", (0, 2), alphabet)
        end = ctx.choice("end", ["", "\n", "\n\n# note\nlast=1\n"])
        ctx.assume(len(kept) == 0 or not blank(kept[-1]))
        lib.write(".booktest", "md_viewer=old\nother=" + kept + end)
    if ctx.flag("has home"):
        lib.write("home/.booktest", "diff_tool=of home\n")
    first = seen_config()
    answers = {}
    which = ctx.choice("answered", symbolic)
    for k in KEYS:
        answers[k] = ctx.text(k, (0, chars), alphabet) if k == which else ctx.choice(k, ["", "given"]) if k in ("diff_tool", "md_viewer") else ""
    v = answers[which]
    ctx.assume(len(v) == 0 or len(v.strip()) == len(v))
    ctx.assume(not (v == "1" or v == "0"))
    left = list(KEYS)

    def hook(prompt):
        k = [k for k in left if "specify " + k + " " in prompt]
        ctx.check(len(k) == 1, lambda: "asked %r" % prompt)
        left.remove(k[0])
        return answers[k[0]]
    ctx.env.input_hook = hook
    rc, text = lib.main([("x", lambda t: None)], ["--setup"])
    ctx.check(rc == 0 and not left, lambda: "not asked for %r" % left)
    ctx.env.input_hook = None
    ctx.env.fresh_process()
    got = seen_config()
    defaults = {"diff_tool": "meld", "fast_diff_tool": "diff", "md_viewer": "retext --preview", "log_viewer": "less", "test_paths": "test,book,run",
                "default_tests": "test,book", "books_path": "books"}
    for k in KEYS:
        want = answers[k] if len(answers[k]) else first[k] if k in first else defaults[k]
        ctx.check(k in got and same(ctx, got[k], want), lambda: "%s is %r instead of %r\n%s" % (k, got.get(k), want, lib.read(".booktest")))
    # what was not asked for is as before
    for k in first:
        if k not in KEYS:
            ctx.check(k in got and same(ctx, got[k], first[k]), lambda: "%s was %r and is %r\n%s" % (k, first[k], got.get(k), lib.read(".booktest")))
    ctx.check(all(k in first or k in KEYS for k in got), lambda: "%r from %r" % (got, first))
    ctx.reach("done")


COMMANDS = [(v, k) for k, v in list(FLAGS.items()) + list(VALUES.items())] + [("parallel", "--parallel-count"), ("coverage", "--cov"), ("fast_diff_tool", None), ("default_tests", None)]
FLAGS["--cov"] = "coverage"
HARNESSES = [
    Harness("files", files, dict(where=["project", "home"], nlines=2, shapes=["pair", "comment", "blank"], alphabet=TEXT, chars=2),
            dict(where=["project", "home"], nlines=3, shapes=["pair", "comment", "blank"], alphabet=TEXT, chars=2),
            bounds="two (three) lines, values and comments of up to two characters of any kind", witness=("done",)),
    Harness("free", files, dict(where=["project"], nlines=1, shapes=["free"], alphabet=charset("k=#1 \t"), chars=5),
            dict(where=["project"], nlines=1, shapes=["free"], alphabet=charset("k=#01 \t\""), chars=6),
            bounds="one line of up to five (six) characters", witness=("done",)),
    Harness("layers", layers, dict(keys=COMMANDS, sources=["home", "project", "environment", "command"], alphabet=PRINT),
            bounds="every command line option and two settings without one, in any subset of the four sources, with any one-character value", witness=("command", "other")),
    Harness("leak", leak, dict(nflags=2), dict(nflags=3), bounds="up to two (three) options in one run and none in the next", witness=("done",)),
    Harness("setup", setup, dict(symbolic=["md_viewer", "books_path"], alphabet=TEXT, chars=2), dict(symbolic=KEYS, alphabet=TEXT, chars=3),
            bounds="any answer of up to two (three) characters", witness=("done",)),
    Harness("long file", large.settings, dict(n=40, width=500),
            dict(n=400, width=5000),
            bounds="a file of 40 settings of 500 characters, with one symbolic place", timeout=120, witness=("done",)),
]
