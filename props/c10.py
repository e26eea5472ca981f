"""C10 Exit status and report reflect every executed case"""
import re
from sx.ctx import Harness
from sx.core import ALL_UNICODE, charset
from props import lib, large

LINE = ALL_UNICODE.minus(charset("\r\n"))
ASSUMPTIONS = ["tests end by returning or by an Exception; SystemExit and KeyboardInterrupt end the run itself"]
SNAP = "line x\n"


def make(ctx, name, c, ran, ms):
    """the verdict depends on one symbolic character of the content"""
    def test(t):
        ran.append(name)
        ctx.env._now += ms / 1000.0
        if c == "*":
            raise ValueError("boom")
        t.tln("line " + c)
        if c == "!":
            t.fail().iln("bad")
    return test


def kind_of(c, snapshot):
    if c == "*":
        return "raise"
    if c == "!":
        return "FAIL"
    if not snapshot:
        return "NEW"
    return "OK" if c == "x" else "DIFF"


def expectation(cs, snapshot, kinds, answers, mode, fail_fast, accept, update):
    """[(index, verdict)] of the cases to execute"""
    out = []
    for i in range(len(cs)):
        # the content of cases that are not to be executed does not matter
        kind = kind_of(cs[i], snapshot[i])
        kinds.append(kind)
        v = {"raise": "FAIL", "NEW": "DIFF"}.get(kind, kind)
        ask = mode == "-I" or mode == "-i" and v != "OK"
        aborted = False
        if ask:
            if answers[i] == "a" and v != "FAIL":
                v = "OK"
            elif answers[i] == "q":
                aborted = True
        if accept and v == "DIFF":
            v = "OK"
        out.append((i, v))
        if aborted or fail_fast and v != "OK":
            break
    return out


def summary(text):
    """(number of cases not OK, number of cases, names) as printed at the end"""
    ls = text.split("\n")
    for k in range(len(ls) - 1, -1, -1):
        m = re.fullmatch(r"(\d+)/(\d+) test (failed|succeeded) in (\d+) ms(:?)", ls[k])
        if m is not None:
            names = [l.strip() for l in ls[k + 1:] if l.strip() != ""]
            if m.group(3) == "succeeded":
                return (int(m.group(2)) - int(m.group(1)), int(m.group(2)), names)
            return (int(m.group(1)), int(m.group(2)), names)
    return None


def runs(ctx, n, alphabet, new, modes, flags, old_records):
    names = ["s/a", "s/b", "s/ab", "t", "u"][:n]
    cs = [ctx.char("c%d" % i, alphabet) for i in range(n)]
    snapshot = [not (new and ctx.flag("new%d" % i)) for i in range(n)]
    mode = ctx.choice("mode", modes)
    answers = [ctx.choice("answer%d" % i, ["c", "q", "a"]) if mode != "" else "c" for i in range(n)]
    fail_fast = ctx.flag("fail fast")
    accept = "-a" in flags and ctx.flag("accept")
    update = "-u" in flags and ctx.flag("update")
    verbose = "-v" in flags and ctx.flag("verbose")
    olds = []
    for i in range(n):
        o = ctx.choice("old%d" % i, [None, "OK", "DIFF", "FAIL"]) if old_records else None
        if o is not None:
            olds.append((names[i], o, "77.0"))
    if old_records:
        olds.append(("z", "FAIL", "5.5"))
        olds.append(("y/x", "OK", "6.5"))
        lib.write("books/.out/cases.txt", "".join(["\t".join(o) + "\n" for o in olds]))
    ran = []
    # the first case may take less time than can be told
    ms = [1000 * (i + 1) for i in range(n)]
    if n > 1 and ctx.flag("quick"):
        ms[0] = 0
    cases = [(nm, make(ctx, nm, c, ran, d)) for nm, c, d in zip(names, cs, ms)]
    cases.append(("z", make(ctx, "z", "x", ran, 1)))
    for nm, k in zip(names, snapshot):
        if k:
            lib.write("books/%s.md" % nm, SNAP)
    asked = []

    def hook(prompt):
        # the cases are executed in order, so the question is about the last one
        i = len(ran) - 1
        asked.append(i)
        return answers[i] if asked.count(i) == 1 else "c"
    ctx.env.input_hook = hook
    args = [mode] if mode else []
    if fail_fast:
        args.append("-f")
    if accept:
        args.append("-a")
    if update:
        args.append("-u")
    if verbose:
        args.append("-v")
    args += names
    rc, text = lib.main(cases, args)
    ks = []
    want = expectation(cs, snapshot, ks, answers, mode, fail_fast, accept, update)
    ctx.observe("rc", rc)
    ctx.check(ran == [names[i] for i, v in want], lambda: "executed %r of %r, mode %r answers %r fail fast %r" %
              (ran, ks, mode, answers, fail_fast))
    good = all([v == "OK" for i, v in want])
    ctx.reach("success" if good else "no success")
    ctx.check((rc == 0) == good, lambda: "exit status %r for %r" % (rc, want))
    report = lib.read_cases("books/.out/cases.txt")
    for i, v in want:
        recs = [r for r in report if r[0] == names[i]]
        ctx.check(len(recs) == 1, lambda: "%d records of %s: %r" % (len(recs), names[i], report))
        ctx.check(recs[0][1] == v, lambda: "record %r instead of %s for %r" % (recs[0], v, ks))
        d = float(recs[0][2])
        ctx.check(ms[i] <= d < ms[i] + 500, lambda: "duration %r of a test that took %d ms" % (d, ms[i]))
    for r in olds:
        if r[0] not in names:
            ctx.check([x for x in report if x[0] == r[0]] == [r], lambda: "the record %r of a case not selected changed: %r" % (r, report))
    known = set(names) | set(["z", "y/x"])
    ctx.check(all([r[0] in known for r in report]), "records of unknown cases")
    bad = [names[i] for i, v in want if v != "OK"]
    s = summary(text)
    ctx.check(s == (len(bad), len(want), bad), lambda: "summary %r instead of %r" % (s, (len(bad), len(want), bad)))
    # the lines printed while running
    if not verbose:
        for i, v in want:
            first = {"raise": "FAIL", "NEW": "DIFF"}.get(ks[i], ks[i])
            ls = [l for l in text.split("\n") if "  %s.." % names[i] in l]
            word = {"OK": r".*\.\.\d+ ms.*", "DIFF": r".*DIFFERED in \d+ ms.*", "FAIL": r".*FAILED in \d+ ms.*"}[first]
            ctx.check(len(ls) == 1 and re.fullmatch(word, ls[0]) is not None, lambda: "printed %r for %s" % (ls, first))


HARNESSES = [
    Harness("kinds", runs, dict(n=4, alphabet="x!*y", new=False, modes=[""], flags=["-a", "-u"], old_records=False),
            dict(n=4, alphabet="x!*y", new=True, modes=[""], flags=["-a", "-u", "-v"], old_records=False),
            bounds="4 cases of every mix of verdicts, fail-fast, accept, update", witness=("success", "no success")),
    Harness("content", runs, dict(n=2, alphabet=LINE, new=True, modes=[""], flags=["-a"], old_records=False),
            dict(n=3, alphabet=LINE, new=True, modes=[""], flags=["-a"], old_records=False),
            bounds="2 (3) cases, each with one line ending in any character and any or no snapshot, fail-fast, accept",
            witness=("success", "no success")),
    Harness("answers", runs, dict(n=2, alphabet="x!*y", new=False, modes=["-i", "-I"], flags=["-v"], old_records=False),
            dict(n=3, alphabet="x!*y", new=True, modes=["-i", "-I"], flags=["-v"], old_records=False),
            bounds="2 (3) cases of every mix of verdicts, every mix of the answers continue, quit, accept",
            witness=("success", "no success")),
    Harness("records", runs, dict(n=2, alphabet="x!y", new=False, modes=[""], flags=[], old_records=True),
            dict(n=3, alphabet="x!y", new=False, modes=[""], flags=["-a"], old_records=True),
            bounds="2 (3) cases of every mix of verdicts over every old report", witness=("success", "no success")),
    Harness("large", large.report, dict(sizes=[256, 300], args=[[], ["-c"], ["-v"]]),
            dict(sizes=[257, 300, 512], args=[[], ["-c"], ["-v"]]),
            bounds="256 and 300 cases of which none, one, two or all are not OK", timeout=120, witness=("bad", "good")),
]
