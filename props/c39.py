"""C39 The console shows what happened: each case with its verdict, and its report and logs when asked for"""
import json, logging, sys
from sx.ctx import Harness
from sx.core import ALL_UNICODE, charset
from props import lib, par, large

LINE = ALL_UNICODE.minus(charset("\r\n"))
ASSUMPTIONS = ["the report lines of a case are those of its .txt file (C05 decides what they are)", "log text has no carriage returns",
               "pool and threads as in C15"]
SNAP = "# head\n\nline x\n"
KEYS = {"a": "(a)ccept", "c": "(c)ontinue", "q": "(q)uit", "v": "(v)iew", "l": "(l)ogs", "d": "(d)iff", "D": "fast (D)iff"}


def block(name, verdict, ms, report, logs, verbose, asks):
    """what the console shows of one case"""
    out = ""
    took = "%d ms" % ms
    word = {"OK": ("ok in " if verbose else ""), "DIFF": "DIFFERED in ", "FAIL": "FAILED in "}[verdict]
    if verbose:
        out += "test %s...\n\n" % name
        out += "".join([l + "\n" for l in report])
        if logs:
            out += "\n%s logs:\n\n" % name + "".join(["  " + l + "\n" for l in logs])
        out += "\n%s %s%s%s\n" % (name, word, took, "." if verdict == "OK" else "")
    else:
        out += "  %s.." % name
        if logs:
            out += "\n" + "".join(["    log: " + l + "\n" for l in logs]) + "  %s.." % name
        out += word + took + "\n"
        out += "    " * asks
    if verbose:
        out += "\n"
    return out


def end(recs, ms):
    bad = [n for n, v in recs if v != "OK"]
    if bad:
        return "\n%d/%d test failed in %s ms:\n\n" % (len(bad), len(recs), ms) + "".join(["  %s\n" % n for n in bad]) + "\n"
    return "\n%d/%d test succeeded in %s ms\n\n" % (len(recs), len(recs), ms)


def console(ctx, n, alphabet, writes, flagss, ways, chars, late, answers, new):
    names = ["s/a", "s/b", "t"][:n]
    cs = [ctx.char("c%d" % i, alphabet) for i in range(n)]
    has = [not (new and ctx.flag("new%d" % i)) for i in range(n)]
    logs, wrote = [], []
    for i in range(n):
        how = ctx.choice("log%d" % i, writes)
        w, k = [], 0
        for part in how:
            if part == "?":
                part = ctx.char("log%d %d" % (i, k), chars)
                k += 1
            w.append(part)
        text = "".join(w).replace("LOG", "logged\n")
        wrote.append(w)
        logs.append(lib.lines(text))
    flags = ctx.choice("flags", flagss)
    way = ctx.choice("way", ways)
    verbose, shows = "-v" in flags, "-L" in flags
    mode = "-i" in flags

    def cases():
        out = []
        for i in range(n):
            def make(i):
                def f(t):
                    for part in wrote[i]:
                        if part == "LOG":
                            logging.getLogger("x").warning("logged")
                        else:
                            sys.stderr.write(part)
                    t.h1("head")
                    t.tln("line " + cs[i])
                    if cs[i] == "*":
                        raise ValueError("boom")
                    if cs[i] == "!":
                        t.fail().iln("bad")
                    ctx.env._now += (i + 1.5) / 1000.0
                return f
            out.append([names[i], make(i)])
        return out
    for i in range(n):
        if has[i]:
            lib.write("books/%s.md" % names[i], SNAP)
    kinds = ["FAIL" if c in ("*", "!") else "DIFF" if not h else "OK" if c == "x" else "DIFF" for c, h in zip(cs, has)]
    if way == "-w":
        lib.main(cases(), ["*"])
    final, plan = {}, {}
    for i, x in enumerate(names):
        v = kinds[i]
        asks = 0
        if mode and v != "OK":
            plan[x] = []
            while True:
                a = ctx.choice("answer %d %d" % (i, asks), answers) if asks < 2 else "c"
                plan[x].append(a)
                asks += 1
                if a == "c" or a == "a" and v != "FAIL":
                    break
            if plan[x][-1] == "a":
                v = "OK"
        if "-a" in flags and v == "DIFF":
            v = "OK"
        final[x] = (v, asks)
    todo = dict((x, list(a)) for x, a in plan.items())
    lists = []

    def hook(prompt):
        # the case that is asked about is the last one shown
        for y in order():
            if todo.get(y):
                lists.append((y, prompt))
                return todo[y].pop(0)
        return "c"

    def order():
        text = sys.stdout.getvalue()
        seen = [(text.rfind("test %s..." % x if verbose else "  %s.." % x), x) for x in names]
        return [x for p, x in sorted(seen, reverse=True) if p >= 0]
    ctx.env.input_hook = hook
    ctx.env.tool_rc = 0
    if way == "-p2":
        rc, text = par.World(ctx, late).run_main(cases(), list(flags) + ["-p2", "*"])
    elif way == "-w":
        rc, text = lib.main(cases(), list(flags) + ["-w", "*"])
    else:
        rc, text = lib.main(cases(), list(flags) + ["*"])
    recs = lib.read_cases("books/.out/cases.txt")
    ctx.check(sorted(c[0] for c in recs) == sorted(names), lambda: "recorded %r" % recs)
    if way != "-p2":
        ctx.check([c[0] for c in recs] == names, lambda: "recorded %r" % recs)
    wants = ["\n# test results:\n\n"]
    for c in recs:
        i = names.index(c[0])
        report = lib.lines(lib.read("books/.out/%s.txt" % c[0]))
        ctx.check(c[1] == final[c[0]][0], lambda: "%s recorded as %r instead of %r" % (c[0], c[1], final[c[0]]))
        # workers accept before the console hears of the case
        shown = {kinds[i], final[c[0]][0]} if way == "-p2" and "-a" in flags else {kinds[i]}
        wants = [w + block(c[0], v, int(float(c[2])), report, logs[i] if shows else [], verbose, final[c[0]][1]) for w in wants for v in sorted(shown)]
    took = json.loads(lib.read("books/.out/metrics.json"))["tookMs"]
    wants = [w + end([(c[0], c[1]) for c in recs], took) for w in wants]
    ctx.check(len(wants) > 1 and text in wants or ctx.eq(text, wants[0]), lambda: "the console shows\n%s\ninstead of\n%s" % (text, wants[0]))
    for x, prompt in lists:
        offered = [k for k in KEYS if KEYS[k] in prompt.replace("fast (D)iff", "" if k == "d" else "fast (D)iff")]
        ctx.check(offered == [k for k in KEYS if k != "a" or kinds[names.index(x)] != "FAIL"], lambda: "%s is asked about with %r" % (x, prompt))
    ctx.check(all(not a for a in todo.values()), lambda: "not asked: %r" % todo)
    ctx.reach(way)


FLAGS = [(), ("-v",), ("-L",), ("-v", "-L")]
HARNESSES = [
    Harness("logs", console, dict(n=1, alphabet=charset("xy*!"), writes=["", "?\n", "?", "?\n?\n", "\n?", "?\n\n", ["LOG", "?"]], flagss=FLAGS,
                                  ways=["serial", "-p2", "-w"], chars=LINE, late=0, answers=None, new=False),
            bounds="one case of any verdict, up to two log lines of any character", witness=("serial", "-p2", "-w")),
    Harness("cases", console, dict(n=2, alphabet=charset("xy*!"), writes=["", ["a\n", "LOG"]], flagss=FLAGS + [("-a",), ("-v", "-a"), ("-L", "-v", "-a")],
                                   ways=["serial", "-p2", "-w"], chars=LINE, late=1, answers=None, new=True),
            dict(n=3, alphabet=charset("xy*!"), writes=["", ["a\n", "LOG"]], flagss=FLAGS + [("-a",), ("-v", "-a"), ("-L", "-v", "-a")],
                 ways=["serial", "-p2", "-w"], chars=LINE, late=2, answers=None, new=True),
            bounds="two (three) cases of any verdict, with or without snapshot", witness=("serial", "-p2", "-w")),
    Harness("asked", console, dict(n=2, alphabet=charset("xy!"), writes=["", "b\n"], flagss=[("-i",), ("-i", "-v", "-L"), ("-i", "-L")],
                                   ways=["serial", "-p2", "-w"], chars=LINE, late=1, answers=["a", "c"], new=False),
            bounds="two cases of any verdict and up to two answers for each", witness=("serial", "-p2", "-w")),
    Harness("many", large.shown, dict(n=30, width=100),
            dict(n=150, width=150),
            bounds="30 cases with names of 100 characters and reports of 50 lines", timeout=120, witness=("done",)),
]
