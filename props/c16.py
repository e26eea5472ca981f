"""C16 A parallel run reports the same verdicts as its workers produced"""
import sys
from sx.ctx import Harness
from props import lib, par, large
from props.c10 import summary, kind_of
import booktest as bt

ASSUMPTIONS = ["pool and threads as in C15", "of the cases still with their workers when the user or fail-fast ends the run "
               "none needs to be reported"]


def runs(ctx, n, alphabet, new, fails, modes, answers, flags, late, preempts, old, interrupts, failsome):
    names = ["s/a", "b", "s/ab", "t"][:n]
    cs = [ctx.char("c%d" % i, alphabet) for i in range(n)]
    snapshot = [not (new and ctx.flag("new%d" % i)) for i in range(n)]
    fail = {}
    for i, x in enumerate(names[:failsome]):
        f = ctx.choice("worker of %s" % x, fails)
        if f is not None:
            fail[x] = f
    mode = ctx.choice("mode", modes)
    fail_fast = "-f" in flags and ctx.flag("fail fast")
    accept = "-a" in flags and ctx.flag("accept")
    update = "-u" in flags and ctx.flag("update")
    ans = {x: ctx.choice("answer " + x, answers) if mode else "c" for x in names}
    ran = []

    def make(x, c):
        def test(t):
            ran.append(x)
            ctx.env._now += 2.5
            if c == "*":
                raise ValueError("boom")
            t.tln("line " + c)
            if c == "!":
                t.fail().iln("bad")
        return test
    for x, s in zip(names, snapshot):
        if s:
            lib.write("books/%s.md" % x, "line x\n")
    olds = []
    if old:
        olds = [("z", "FAIL", "5.5"), ("s/abc", "OK", "1.25")]
        olds += [(x, ctx.choice("old " + x, ["OK", "FAIL"]), "3.0") for x in names[:1]]
        lib.write("books/.out/cases.txt", "".join(["\t".join(o) + "\n" for o in olds]))
    cont = old and ctx.flag("continue")
    todo = [x for x in names if not (cont and (x, "OK", "3.0") in olds)]
    w = par.World(ctx, late, preempts, fail, shared=False)
    asked = []
    stop = [False]

    def hook(prompt):
        text = sys.stdout.getvalue()
        at = [(text.rfind("  %s.." % x), x) for x in names]
        x = max(at)[1]
        if not asked or asked[-1] != x:
            ctx.check(x not in asked, "asked again about a case")
            ctx.check(not stop[0], "asked after the run was to end")
            asked.append(x)
            if ans[x] == "q":
                stop[0] = True
            return ans[x]
        return "c"
    ctx.env.input_hook = hook
    args = ["-p2"] + ([mode] if mode else []) + (["-f"] if fail_fast else []) + (["-a"] if accept else []) + \
        (["-u"] if update else []) + (["-c"] if cont else [])
    point = ctx.int("interrupt", 0, interrupts) if interrupts else None
    sleeps = [0]
    broken = [False]
    if interrupts:
        inner = w.sleep

        def sleep(s):
            # control-c reaches the main thread
            if w.current is w.main and not w.working and not broken[0]:
                sleeps[0] += 1
                if sleeps[0] == point:
                    broken[0] = True
                    raise KeyboardInterrupt()
            inner(s)
        w.sleep = sleep
    rc, text = w.run_main([(x, make(x, c)) for x, c in zip(names, cs)] + [("z", make("z", "x"))], args + names)
    want = {}
    for i, x in enumerate(names):
        if x not in todo:
            continue
        if x in fail:
            # what a dead worker did to the snapshot is not known, but it delivered no verdict
            v = "FAIL"
        else:
            v = {"raise": "FAIL", "NEW": "DIFF"}.get(kind_of(cs[i], snapshot[i]), kind_of(cs[i], snapshot[i]))
            if v == "DIFF" and accept:
                v = "OK"
        ask = (mode == "-I" or mode == "-i" and v != "OK")
        if ask and not (stop[0] or fail_fast or broken[0]):
            ctx.check(x in asked, lambda: "not asked about %s, %s" % (x, v))
        if not ask:
            ctx.check(x not in asked, lambda: "asked about %s, %s" % (x, v))
        if x in asked and v == "DIFF" and ans[x] == "a":
            v = "OK"
        want[x] = v
    recs = lib.read_cases("books/.out/cases.txt")
    mine = [c for c in recs if c[0] in todo]
    ctx.check(len(set([c[0] for c in mine])) == len(mine), lambda: "a case twice in %r" % recs)
    whole = not stop[0] and not broken[0] and not (fail_fast and any([v != "OK" for v in want.values()]))
    ctx.reach("whole" if whole else "ended early")
    if whole:
        ctx.check(len(mine) == len(todo), lambda: "records %r of %r, workers %r" % (recs, todo, fail))
    for c in mine:
        ctx.check(c[1] == want[c[0]], lambda: "record %r instead of %s, workers %r, asked %r" % (c, want[c[0]], fail, asked))
        ctx.check(c[0] in w.finished, lambda: "%s is recorded, but was not executed" % c[0])
        if c[0] in ran and c[0] not in fail:
            ctx.check(2500 <= float(c[2]) < 2600, lambda: "duration %r" % (c,))
    for x in asked:
        ctx.check(x in [c[0] for c in mine], lambda: "%s was reviewed, but is not recorded: %r" % (x, recs))
    bad = [c[0] for c in mine if c[1] != "OK"]
    ctx.check((rc == 0) == (not bad), lambda: "exit status %r with %r" % (rc, mine))
    s = summary(text)
    ctx.check(s is not None and s[0] == len(bad) and s[1] == len(mine) and sorted(s[2]) == sorted(bad),
              lambda: "summary %r of %r" % (s, mine))
    if fail_fast and not whole and not broken[0]:
        ctx.check(bool(bad) or stop[0], "ended early without a failure")
    for o in olds:
        if o[0] not in todo:
            ctx.check([c for c in recs if c[0] == o[0]] == [o], lambda: "the record %r became %r" % (o, recs))
    known = set(names) | set([o[0] for o in olds])
    ctx.check(all([c[0] in known for c in recs]), lambda: "unknown cases in %r" % recs)
    # snapshots as after a serial run
    for i, x in enumerate(names):
        now = lib.read("books/%s.md" % x)
        old_text = "line x\n" if snapshot[i] else None
        new_text = None
        if x in todo and cs[i] != "*":
            new_text = "line " + cs[i] + "\n"
        k = kind_of(cs[i], snapshot[i])
        accepted = x in asked and ans[x] == "a" or accept
        if x in fail or x not in want:
            continue
        if k in ("DIFF", "NEW") and (accepted if whole or x in [c[0] for c in mine] else False):
            ctx.check(now is not None and ctx.eq(now, new_text), lambda: "accepted, but %s is %r" % (x, now))
        elif k in ("FAIL", "raise", "OK") or not accept:
            ctx.check(now == old_text, lambda: "%s changed to %r" % (x, now))


X = "x!*y"
HARNESSES = [
    Harness("verdicts", runs, dict(n=3, alphabet=X, new=False, fails=[None], modes=[""], answers=["c"], flags=["-f"], late=3,
                                   preempts=0, old=False, interrupts=0, failsome=0),
            dict(n=3, alphabet=X, new=True, fails=[None], modes=[""], answers=["c"], flags=["-f", "-a", "-u"], late=2,
                 preempts=0, old=False, interrupts=0, failsome=0),
            bounds="3 cases of every mix of verdicts, fail-fast, at most 3 (2) looks at unfinished tasks",
            witness=("whole", "ended early")),
    Harness("preempted", runs, dict(n=2, alphabet=X, new=True, fails=[None], modes=[""], answers=["c"], flags=["-f"],
                                    late=1, preempts=1, old=False, interrupts=0, failsome=0),
            dict(n=2, alphabet=X, new=True, fails=[None], modes=[""], answers=["c"], flags=["-f"],
                 late=2, preempts=2, old=False, interrupts=0, failsome=0),
            bounds="2 cases, at most 1 (2) changes of threads at locks", witness=("whole", "ended early")),
    Harness("workers", runs, dict(n=2, alphabet="xy!", new=False, fails=[None, "dead", "torn"], modes=["", "-i"], answers=["c", "a"],
                                  flags=["-f"], late=2, preempts=0, old=True, interrupts=0, failsome=2),
            dict(n=3, alphabet="xy!", new=False, fails=[None, "dead", "torn"], modes=["", "-i"], answers=["c"],
                 flags=["-f"], late=2, preempts=0, old=True, interrupts=0, failsome=2),
            bounds="2 (3) cases, up to two workers fail before or while reporting, over old reports, continue mode",
            witness=("whole", "ended early")),
    Harness("answers", runs, dict(n=2, alphabet="x!y", new=False, fails=[None], modes=["-i", "-I"], answers=["c", "q", "a"],
                                  flags=["-a", "-u"], late=2, preempts=0, old=False, interrupts=0, failsome=0),
            dict(n=3, alphabet="x!y", new=False, fails=[None], modes=["-i", "-I"], answers=["c", "q", "a"],
                 flags=[], late=2, preempts=0, old=False, interrupts=0, failsome=0),
            bounds="2 (3) cases, every mix of verdicts and answers, accept, update", witness=("whole", "ended early")),
    Harness("control-c", runs, dict(n=2, alphabet="x!y", new=False, fails=[None], modes=[""], answers=["c"],
                                    flags=[], late=2, preempts=0, old=True, interrupts=6, failsome=0),
            dict(n=3, alphabet="x!y", new=False, fails=[None], modes=[""], answers=["c"],
                 flags=[], late=3, preempts=0, old=True, interrupts=8, failsome=0),
            bounds="2 (3) cases, control-c at any of the first 6 (8) waits", witness=("whole", "ended early")),
    Harness("many", large.parallel, dict(n=60, args=["-p4"], graphs=["none", "pairs"]),
            dict(n=260, args=["-p8"], graphs=["none", "pairs"]),
            bounds="60 cases of which none, one, two or all are not OK, one of them slow", timeout=120, witness=("good", "bad")),
    Harness("hundreds", large.parallel, dict(n=256, args=["-p4"], graphs=["none"], slows=[None]),
            dict(n=512, args=["-p4"], graphs=["none"], slows=[None, 0]),
            bounds="256 (512) cases of which none, one, two or all are not OK", timeout=120, witness=("good", "bad")),
]
