"""C17 Reviewing a finished run shows and updates exactly what was asked"""
import sys, json
from sx.ctx import Harness
from props import lib, large
from props.c10 import summary

ASSUMPTIONS = ["the report and the outputs are those a run leaves behind"]


def review(ctx, n, verdicts, modes, answers, flags, extra, again, gone, turn=True, metrics=("whole",)):
    names = ["s/a", "s/ab", "b", "s/c"][:n]
    recs = []
    for x in names:
        v = ctx.choice("verdict " + x, verdicts)
        if v is None:
            continue
        lib.write("books/%s.md" % x, "line\n")
        has = not (gone and v == "DIFF" and ctx.flag("no output " + x))
        if has:
            lib.write("books/.out/%s.md" % x, "line\n" if v == "OK" else "new %s\n" % x)
        recs.append([x, v, "12.5", has])
    if turn and ctx.flag("reversed"):
        recs.reverse()
    if extra:
        # of a test that is no more
        recs.insert(ctx.pick("old test at", len(recs) + 1), ["s/old", ctx.choice("old test", ["OK", "FAIL"]), "3.0", False])
    lib.write("books/.out/cases.txt", "".join(["\t".join(r[:3]) + "\n" for r in recs]))
    left = ctx.choice("metrics", metrics)
    if left != "none":
        whole = json.dumps({"tookMs": 4321})
        lib.write("books/.out/metrics.json", whole if left == "whole" else whole[:ctx.pick("cut", len(whole))])
    mode = ctx.choice("mode", modes)
    memo = {}

    def given(x):
        # decided when first asked for
        if x not in memo:
            memo[x] = ctx.choice("answer " + x, answers)
        return memo[x]
    opts = {f: ctx.flag(f) for f in flags}
    sel = [e for e in ["s/a", "s", "b"][:n] if ctx.flag("select " + e)]
    selected = [x for x in names if not sel or any([x == e or x.startswith(e + "/") for e in sel])]
    ran, asked, done = [], [], []

    def hook(prompt):
        text = sys.stdout.getvalue()
        x = max([(text.rfind(" %s.." % y), y) for y in names])[1]
        if asked and asked[-1] == x:
            return "c"
        asked.append(x)
        return given(x)
    ctx.env.input_hook = hook

    def make(x):
        def test(t):
            ran.append(x)
        return test
    lib.write(".booktest", "default_tests=*\n")
    args = ["-w"] + ([mode] if mode else []) + [f for f in flags if opts[f]]
    rc, text = lib.main([(x, make(x)) for x in names], args + sel)
    ctx.check(ran == [], "a review runs tests")
    # what is to happen
    want, shown, questions, files = [], [], [], {}
    over = False
    for x, v, d, has in recs:
        if not over and x in selected and not (opts.get("-c") and v == "OK"):
            shown.append((x, v))
            accepted = False
            if mode == "-I" or mode == "-i" and v != "OK":
                questions.append(x)
                if given(x) == "a" and v != "FAIL":
                    accepted = True
                elif given(x) == "q":
                    over = True
            if has and (accepted or v == "DIFF" and opts.get("-a") or v == "OK" and opts.get("-u")):
                files[x] = "line\n" if v == "OK" else "new %s\n" % x
                v = "OK"
            if opts.get("-f") and v != "OK":
                over = True
        want.append((x, v, d))
    ctx.reach("changed" if want != [tuple(r[:3]) for r in recs] else "unchanged")
    ctx.reach("ended early" if over else "to the end")
    ctx.check(asked == questions, lambda: "asked about %r instead of %r" % (asked, questions))
    got = lib.read_cases("books/.out/cases.txt")
    ctx.check([c[:2] for c in got] == [c[:2] for c in want] and all([float(g[2]) == float(w[2]) for g, w in zip(got, want)]),
              lambda: "report %r instead of %r, args %r" % (got, want, args + sel))
    ctx.check((rc == 0) == all([c[1] == "OK" for c in want]), lambda: "exit status %r with %r" % (rc, want))
    lines = text.split("\n")
    printed = []
    if not opts.get("-v"):
        for l in lines:
            for x in names + ["s/old"]:
                if "  %s.." % x in l:
                    printed.append((x, "DIFF" if "DIFFERED in 12 ms" in l else "FAIL" if "FAILED in 12 ms" in l else
                                    "OK" if "..12 ms" in l else "?"))
        ctx.check(printed == shown, lambda: "shown %r instead of %r" % (printed, shown))
    bad = [c[0] for c in want if c[1] != "OK"]
    ctx.check(summary(text) == (len(bad), len(want), bad), lambda: "summary %r of %r" % (summary(text), want))
    for x, v, d, has in recs:
        if x != "s/old":
            now = lib.read("books/%s.md" % x)
            ctx.check(now == files.get(x, "line\n"), lambda: "snapshot of %s is %r" % (x, now))
    if again:
        asked.clear()
        before = lib.tree("books")
        rc2, text2 = lib.main([(x, make(x)) for x in names], ["-w"] + sel)
        ctx.check(lib.read_cases("books/.out/cases.txt") == got, "a review without questions changed the report")
        ctx.check(rc2 == rc, "another exit status the second time")
        ctx.check(asked == [], "questions without being interactive")


V = ["OK", "DIFF", "FAIL"]
HARNESSES = [
    Harness("answers", review, dict(n=3, turn=False, verdicts=V, modes=["-i", "-I"], answers=["c", "a", "q"], flags=["-c"], extra=False,
                                    again=False, gone=False),
            dict(n=4, verdicts=V, modes=["-i", "-I"], answers=["c", "a", "q"], flags=["-c"], extra=False, again=False, gone=False),
            bounds="reports of 3 (4) cases, every verdict and answer, selection, continue mode",
            witness=("changed", "unchanged", "ended early", "to the end")),
    Harness("settings", review, dict(n=2, turn=False, verdicts=V + [None], modes=["", "-i"], answers=["c", "q"],
                                     flags=["-a", "-u", "-f", "-v", "-c"], extra=False, again=False, gone=True),
            dict(n=3, verdicts=V + [None], modes=["", "-i"], answers=["c"], flags=["-a", "-u", "-f", "-v", "-c"], extra=False,
                 again=False, gone=True),
            bounds="reports of up to 2 (3) cases, accept, update, fail-fast, verbose, continue, missing outputs",
            witness=("changed", "unchanged", "ended early", "to the end")),
    Harness("others", review, dict(n=2, verdicts=V, modes=["", "-i"], answers=["a"], flags=["-f"], extra=True, again=True, gone=False),
            dict(n=4, verdicts=V + [None], modes=["", "-i"], answers=["a"], flags=["-f"], extra=True, again=True, gone=False),
            bounds="reports of 2 (4) cases and one of a test that is no more, reviewed twice",
            witness=("changed", "unchanged", "ended early", "to the end")),
    Harness("interrupted", review, dict(n=2, turn=False, verdicts=["OK", "DIFF", None], modes=["-i"], answers=["a"], flags=[], extra=False, again=True, gone=False,
                                        metrics=("none", "cut")),
            bounds="reports of up to two cases of a run that was interrupted: its metrics are missing or cut off anywhere",
            witness=("changed", "unchanged", "to the end")),
    Harness("large", large.reviewed, dict(n=60),
            dict(n=300),
            bounds="60 cases of which none, one, two or all are not OK", timeout=120, witness=("done",)),
]
