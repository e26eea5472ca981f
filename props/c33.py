"""C33 Review tools get exactly the case's files and change nothing"""
import os, sys
from sx.ctx import Harness
from sx.core import charset, ALL_UNICODE
from props import lib, par

ASSUMPTIONS = ["tools are stand-ins that record how they are called and which of their files exist; shell syntax is read as Python's shlex does"]
LINE = ALL_UNICODE.minus(charset("\r\n"))
NAME = charset("".join(chr(c) for c in range(32, 127) if chr(c) not in "/.\\"))
KEYS = {"v": "md_viewer", "l": "log_viewer", "d": "diff_tool", "D": "fast_diff_tool"}
TOOLS = {"md_viewer": ["view", "--now"], "log_viewer": ["less"], "diff_tool": ["meld"], "fast_diff_tool": ["diff", "-u"]}


def tools(ctx, names, chars, nans, answers, verdicts, modes, undefined, snaps):
    name = ctx.choice("name", names)
    if chars:
        name = name + ctx.text("name", chars, NAME)
    verdict = ctx.choice("verdict", verdicts)
    mode = ctx.choice("mode", modes)
    missing = ctx.choice("undefined", undefined)
    lib.write(".booktest", "default_tests=*\n" + "".join(["%s=%s\n" % (k, " ".join(v)) for k, v in TOOLS.items() if k != missing]))
    exp, out, log = "books/%s.md" % name, "books/.out/%s.md" % name, "books/.out/%s.log" % name
    has = verdict == "OK" or ctx.choice("snapshot", snaps)
    if has:
        os.makedirs(os.path.dirname(exp), exist_ok=True)
        with open(exp, "w") as f:
            f.write("line\n" if verdict == "OK" else "old\n")

    def test(t):
        t.tln("line")
        if verdict == "FAIL":
            t.fail().tln("x")
    cases = [(name, test)]
    if mode == "-w":
        lib.main(cases, [])
    asked, want, before = [], [], []

    def hook(prompt):
        k = len(asked)
        if not before:
            before.append(lib.tree("books"))
        asked.append(prompt)
        if k >= nans:
            return "c"
        a = ctx.choice("answer%d" % k, answers)
        if a is None:
            a = ctx.char("key%d" % k, LINE)
            ctx.assume(ctx.all([a != x for x in "acqvldD"]))
            want.append(None)
            return a
        files = {"v": [exp, out] if has else [out], "l": [log], "d": [exp, out], "D": [exp, out]}[a]
        if KEYS[a] != missing:
            want.append(TOOLS[KEYS[a]] + files)
            for f in files:
                if f != exp or has:
                    ctx.check(os.path.exists(f), lambda: "%s does not exist when it is shown" % f)
        else:
            want.append(None)
        return a
    ctx.env.input_hook = hook
    ctx.env.tool_rc = ctx.choice("tools end with", [0, 1])
    args = ["-I"] + {"run": [], "-v": ["-v"], "-p2": ["-p2"], "-w": ["-w"]}[mode]
    if mode == "-p2":
        rc, text = par.World(ctx, 0).run_main(cases, args)
    else:
        rc, text = lib.main(cases, args)
    want = [w for w in want if w is not None]
    ctx.check(len(asked) == nans + 1, lambda: "asked %d times" % len(asked))
    ctx.check(ctx.eq(ctx.env.tools, want), lambda: "tools called as %r (%r) instead of %r" % (ctx.env.tools, ctx.env.commands, want))
    ctx.check((rc == 0) == (verdict == "OK"), lambda: "exit status %r" % rc)
    now = lib.tree("books")
    for p, c in before[0].items():
        if not p.startswith(".out/") or p in (out[6:], log[6:]):
            if p != "index.md":
                ctx.check(p in now and ctx.eq(now[p], c), lambda: "%s changed" % p)
    for p in now:
        if not p.startswith(".out/") and p != "index.md":
            ctx.check(p in before[0], lambda: "%s is new" % p)
    ctx.reach("called" if want else "nothing")


A = ["v", "l", "d", "D", None]
HARNESSES = [
    Harness("answers", tools, dict(names=["s/x"], chars=0, nans=2, answers=A, verdicts=["OK", "DIFF", "FAIL"], modes=["run", "-v", "-w", "-p2"],
                                   undefined=[None, "md_viewer", "diff_tool"], snaps=[True, False]),
            dict(names=["s/x", "x"], chars=0, nans=3, answers=A, verdicts=["OK", "DIFF", "FAIL"], modes=["run", "-v", "-w", "-p2"],
                 undefined=[None] + sorted(TOOLS), snaps=[True, False]),
            bounds="every sequence of two (three) answers, of any other character too, in a run, verbose, parallel or a review", witness=("called", "nothing")),
    Harness("names", tools, dict(names=["s/", ""], chars=1, nans=1, answers=A[:4], verdicts=["DIFF"], modes=["run"], undefined=[None], snaps=[True, False]),
            dict(names=["s/", "x y/"], chars=2, nans=1, answers=A[:4], verdicts=["DIFF"], modes=["run", "-w"], undefined=[None], snaps=[True, False]),
            bounds="any printable name of one (two) characters", witness=("called",)),
]
