"""C32 Listing, printing, viewing and forgetting act on exactly the selected cases"""
import os
from sx.ctx import Harness
from sx.core import charset, ALL_UNICODE
from props import lib, large

ASSUMPTIONS = ["names are slash separated paths without empty components",
               "a viewer is a stand-in that records how it is called; shell syntax is read as Python's shlex does"]
TEXT = ALL_UNICODE.minus(charset("\r\x00"))
NAME = charset("".join(chr(c) for c in range(32, 127) if chr(c) not in "/.\\"))


def commands(ctx, names, records, cmds, alphabet, chars, entries, snaps):
    recs, text = [], {}
    for k, x in enumerate(names):
        v = ctx.choice("record " + x, records)
        if v is not None:
            recs.append((x, v, "12.5"))
        if ctx.choice("snapshot " + x, snaps):
            text[x] = "of %s\n" % x if k else ctx.text("text", chars, alphabet)
            lib.write("books/%s.md" % x, text[x])
    os.makedirs("books/.out", exist_ok=True)
    if recs or ctx.flag("empty report"):
        lib.write("books/.out/cases.txt", "".join(["\t".join(r) + "\n" for r in recs]))
    lib.write("books/.out/x.bin", "stored")
    lib.write(".booktest", "default_tests=*\nmd_viewer=look --at\n")
    sel = [e for e in entries if ctx.flag("select " + e)]
    cont = ctx.flag("-c")
    cmd = ctx.choice("command", cmds)
    ran = []

    def make(x):
        def test(t):
            ran.append(x)
            t.tln("of " + x)
        return test
    cases = [(x, make(x)) for x in names]
    plain = [e for e in sel if not e.startswith("skip:")]
    selected = [x for x in names if (not plain or any([x == e or x.startswith(e + "/") for e in plain])) and
                not any([x == e[5:] or x.startswith(e[5:] + "/") for e in sel if e.startswith("skip:")])]
    passed = [r[0] for r in recs if r[1] == "OK"]
    todo = [x for x in selected if not (cont and x in passed)]
    ctx.env.tool_rc = ctx.choice("viewer ends with", [0, 1]) if cmd == "--view" else 0
    before = lib.tree("books")
    rc, out = lib.main(cases, [cmd] + (["-c"] if cont else []) + sel)
    ctx.check(ran == [], lambda: "%s runs tests" % cmd)
    after = lib.tree("books")
    ctx.reach(cmd)
    if cmd == "--forget":
        got = lib.read_cases("books/.out/cases.txt")
        left = [r for r in recs if r[0] not in selected]
        ctx.check([g[:2] for g in got] == [r[:2] for r in left], lambda: "left %r of %r, forgotten %r" % (got, recs, selected))
        before.pop(".out/cases.txt", None)
        after.pop(".out/cases.txt", None)
        ctx.check(not rc, "exit status %r" % rc)
    ctx.check(ctx.eq(before, after), lambda: "%s changed files: %r" % (cmd, sorted(set(before) ^ set(after))))
    tools = []
    if cmd == "-l":
        ctx.check(ctx.eq(out, "".join(["  %s\n" % x for x in todo])), lambda: "lists %r instead of %r" % (out, todo))
    elif cmd == "--path":
        ctx.check(ctx.eq(out, "".join(["books/%s.md\n" % x for x in todo])), lambda: "paths %r instead of %r" % (out, todo))
    elif cmd == "--print":
        want = "".join([text[x] for x in todo if x in text])
        ctx.check(ctx.eq(out, want), lambda: "prints %r instead of %r" % (out, want))
    elif cmd == "--view":
        files = ["books/%s.md" % x for x in selected if x in text]
        if files:
            tools = [["look", "--at"] + files]
            ctx.check((rc == 0) == (ctx.env.tool_rc == 0), "the viewer's failure is lost")
    ctx.check(ctx.eq(ctx.env.tools, tools), lambda: "tools called: %r instead of %r" % (ctx.env.tools, tools))
    if cmd != "--view":
        ctx.check(not rc, lambda: "exit status %r" % rc)
    if cmd == "--forget" and cont:
        # what was forgotten is run again
        lib.main(cases, ["-c"])
        again = [x for x in names if not (x in passed and x not in selected)]
        ctx.check(ran == again, lambda: "then continuing runs %r instead of %r" % (ran, again))


def names_(ctx, alphabet, chars, cmds):
    """any name in the commands that print or hand on names"""
    x = "s/" + ctx.text("name", (1, chars), alphabet)
    cmd = ctx.choice("command", cmds)
    lib.write(".booktest", "default_tests=*\nmd_viewer=look\n")
    os.makedirs("books/s")
    with open("books/" + x + ".md", "w") as f:
        f.write("text\n")
    rc, out = lib.main([(x, lambda t: None)], [cmd])
    if cmd == "-l":
        ctx.check(ctx.eq(out, "  %s\n" % x), lambda: "lists %r" % out)
    elif cmd == "--path":
        ctx.check(ctx.eq(out, "books/%s.md\n" % x), lambda: "paths %r" % out)
    elif cmd == "--print":
        ctx.check(ctx.eq(out, "text\n"), lambda: "prints %r" % out)
    else:
        ctx.check(ctx.eq(ctx.env.tools, [["look", "books/%s.md" % x]]), lambda: "viewer called as %r" % (ctx.env.commands,))
    ctx.reach(cmd)


def config(ctx, alphabet, flags):
    """--config prints each setting once with its value"""
    v = ctx.text("value", (1, 2), alphabet)
    ctx.assume(v != "0" and v != "1" and v.strip() == v and v != "")
    lib.write(".booktest", "default_tests=*\ndiff_tool=%s\n" % v)
    args = [f for f in flags if ctx.flag(f)]
    rc, out = lib.main([("a", lambda t: None)], ["--config"] + args)
    lines = lib.lines(out)
    want = ["default_tests=*", "diff_tool=" + v] + ["%s=True" % flags[f] for f in args]
    for w in want:
        ctx.check(len([l for l in lines if bool(ctx.eq(l, w))]) == 1, lambda: "%r is not printed once in %r" % (w, out))
    ctx.check(len([l for l in lines if l.startswith("diff_tool=")]) == 1, "printed twice")
    ctx.check(rc == 0, "exit status")
    ctx.reach("--config")


C = ["-l", "--path", "--print", "--view", "--forget"]
HARNESSES = [
    Harness("commands", commands, dict(names=["s/a", "s/ab", "b"], records=[None, "OK", "DIFF", "FAIL"], cmds=C, alphabet="a", chars=0,
                                       entries=["s/a", "s", "skip:s/ab"], snaps=[True]),
            dict(names=["s/a", "s/ab", "b", "s/a/c"], records=[None, "OK", "DIFF"], cmds=C, alphabet="a", chars=0, entries=["s/a", "s", "skip:s/ab", "b"],
                 snaps=[True]),
            bounds="three (four) cases with any records, any selection of three (four) entries, with continue or not, every command", witness=C),
    Harness("snapshots", commands, dict(names=["s/a", "s/ab"], records=[None, "OK"], cmds=["--print", "--view", "--path"], alphabet=TEXT, chars=(0, 2),
                                        entries=["s/a"], snaps=[True, False]),
            dict(names=["s/a", "s/ab"], records=[None, "OK"], cmds=["--print", "--view", "--path"], alphabet=TEXT, chars=(0, 3),
                 entries=["s/a"], snaps=[True, False]),
            bounds="existing and missing snapshots, one with any text of up to two (three) characters", witness=["--print", "--view", "--path"]),
    Harness("names", names_, dict(alphabet=NAME, chars=1, cmds=C[:4]), dict(alphabet=NAME, chars=2, cmds=C[:4]),
            bounds="any printable name of up to one (two) characters", witness=C[:4]),
    Harness("config", config, dict(alphabet=TEXT.minus(charset("\n\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029")), flags={"-i": "interactive", "-f": "fail_fast", "-L": "print_logs"}),
            bounds="any value of one setting of up to two characters, any of three options", witness=["--config"]),
    Harness("many", large.listed, dict(n=60),
            dict(n=300),
            bounds="60 cases of which none, one, two or all are not OK", timeout=120, witness=("-l", "--path", "--print", "--forget")),
]
