"""C14 Continue reruns exactly the cases not yet successful, after any interruption"""
import os, shutil
from sx.ctx import Harness
from sx.env import _real
from props import lib, large

ASSUMPTIONS = ["an interruption keeps what was handed to the operating system and loses what was only buffered",
               "interruptions happen between changes of the file system, inside tests and at every byte of the report"]


class Crash(BaseException):
    pass


class Interrupter:
    """stops the run at the k-th change of the file system or call of a test, and keeps what was on disk then"""

    def __init__(self, ctx, k, keep):
        self.ctx, self.k, self.keep, self.n, self.done = ctx, k, keep, 0, False

    def __call__(self, what, path):
        if self.done:
            return
        if self.n == self.k:
            self.done = True
            self.saved = lib.tree("books")
            raise Crash()
        self.n += 1

    def restore(self):
        _real["rmtree"]("books")
        os.makedirs("books")
        for k, v in sorted(self.saved.items()):
            p = os.path.join("books", k)
            if v is None:
                os.makedirs(p, exist_ok=True)
            else:
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with _real["open"](p, "wb") as f:
                    f.write(v)


def make(ctx, name, verdict, ran, ended):
    def test(t):
        ran.append(name)
        ctx.env.effect("test", name)
        v = verdict(name)
        t.tln("line" if v != "DIFF" else "other")
        if v == "FAIL":
            t.fail().iln("bad")
        if v == "raise":
            raise ValueError("boom")
        ctx.env.effect("test", name)
        ended.append((name, v))
    return test


def real(v):
    return "FAIL" if v == "raise" else v


def old_reports(ctx, n, verdicts, records, flags, modes):
    """every old report and selection"""
    names = ["s/a", "s/ab", "t", "s/b"][:n]
    now = {}
    olds = []
    order = ctx.flag("report reversed")
    for x in (reversed(names) if order else names):
        o = ctx.choice("old " + x, records)
        if o is not None:
            olds.append((x, o, "77.5"))
    olds.append(("gone", "DIFF", "3.0"))
    lib.write("books/.out/cases.txt", "".join(["\t".join(o) + "\n" for o in olds]))
    old = dict([(o[0], o[1]) for o in olds])
    ran, ended = [], []
    sel = [x for x in names if ctx.flag("select " + x)]
    ctx.assume(len(sel) > 0)

    def verdict(x):
        if x not in now:
            now[x] = ctx.choice("verdict " + x, verdicts)
        return now[x]
    cases = [(x, make(ctx, x, verdict, ran, ended)) for x in names]
    for x in names:
        lib.write("books/%s.md" % x, "line\n")
    cont = ctx.choice("mode", modes)
    before = lib.read_cases("books/.out/cases.txt")
    want = [x for x in names if x in sel and (not cont or old.get(x) != "OK")]
    rc, text = lib.main(cases, ["-l"] + (["-c"] if cont else []) + sel)
    ctx.check([l.strip() for l in lib.lines(text)] == want, lambda: "-l -c lists %r instead of %r" % (text, want))
    ctx.check(lib.read_cases("books/.out/cases.txt") == before, "listing changed the report")
    rc, text = lib.main(cases, (["-c"] if cont else []) + sel)
    ctx.check(ran == want, lambda: "%r ran instead of %r over %r" % (ran, want, olds))
    after = lib.read_cases("books/.out/cases.txt")
    ctx.reach("skipped" if cont and len(want) < len(sel) else "all")
    for o in olds:
        if o[0] not in want:
            ctx.check([c for c in after if c[0] == o[0]] == [o], lambda: "the record %r became %r" % (o, after))
    for x in want:
        recs = [c for c in after if c[0] == x]
        ctx.check(len(recs) == 1 and recs[0][1] == real(now[x]), lambda: "records %r of %s, which is %s" % (recs, x, now[x]))
    ctx.check((rc == 0) == all([now[x] == "OK" for x in want]), lambda: "exit status %r" % rc)


def interrupted(ctx, n, verdicts, records, points, rounds):
    """interruption at any point of a run over any old report, then continuing"""
    names = ["a", "d/b", "c"][:n]
    olds = []
    for x in names:
        o = ctx.choice("old " + x, records)
        if o is not None:
            olds.append((x, o, "77.5"))
    lib.write("books/.out/cases.txt", "".join(["\t".join(o) + "\n" for o in olds]))
    now = {}
    ran, ended = [], []

    def verdict(x):
        if x not in now:
            now[x] = ctx.choice("verdict " + x, verdicts)
        return now[x]
    cases = [(x, make(ctx, x, verdict, ran, ended)) for x in names]
    for x in names:
        lib.write("books/%s.md" % x, "line\n")
    known = dict([(o[0], set([o[1]])) for o in olds])
    for r in range(rounds):
        cont = ctx.flag("continue%d" % r)
        stop = Interrupter(ctx, ctx.int("point%d" % r, 0, points), None)
        ran.clear()
        ended.clear()
        ctx.env.effect_hook = stop
        crashed = False
        try:
            rc, text = lib.main(cases, (["-c"] if cont else []) + names)
        except Crash:
            crashed = True
        ctx.env.effect_hook = None
        if crashed:
            stop.restore()
            ctx.reach("interrupted")
        else:
            ctx.check(stop.n < points, "the bound on interruption points is too small")
            ctx.reach("to the end")
        for x, v in ended:
            known.setdefault(x, set()).add(real(v))
        for x, v in now.items():
            if real(v) == "FAIL" and x in ran:
                known.setdefault(x, set()).add("FAIL")
        left = lib.read_cases("books/.out/cases.txt")
        ctx.check(len(set([c[0] for c in left])) == len(left), lambda: "a case twice in %r" % left)
        for c in left:
            ctx.check(c[0] in known and c[1] in known[c[0]], lambda: "recorded %r, but it ended %r" % (c, known.get(c[0])))
        for x in ran[:-1]:
            # recorded before the next one began
            v = now[x]
            ctx.check([c[1] for c in left if c[0] == x] == [real(v)], lambda: "%s ended %s, the report holds %r" % (x, v, left))
        now.clear()
    ran.clear()
    now.clear()
    rc, text = lib.main(cases, ["-c"] + names)
    ok = [c[0] for c in left if c[1] == "OK"]
    want = [x for x in names if x not in ok]
    ctx.check(ran == want, lambda: "continuing ran %r instead of %r from %r" % (ran, want, left))
    after = dict([(c[0], c[1]) for c in lib.read_cases("books/.out/cases.txt")])
    for x in names:
        ctx.check(after.get(x) == ("OK" if x in ok else real(now[x])), lambda: "after continuing %r" % after)
    ctx.check((rc == 0) == all([now[x] == "OK" for x in want]), lambda: "exit status %r" % rc)


def cut(ctx, records, tail):
    """the report is cut off at any byte"""
    recs = [("a", "OK", "12.5"), ("d/b", "DIFF", "7"), ("c", "FAIL", "0.25"), ("e x", "OK", "1e-05")]
    rs = [(x, ctx.choice("verdict " + x, records), d) for x, v, d in recs[:tail]]
    text = "".join(["\t".join(r) + "\n" for r in rs])
    # the last record may have any number of digits missing, but not its verdict
    at = ctx.pick("cut at", len(text) + 1)
    lib.write("books/.out/cases.txt", text[:at])
    from booktest.reports import CaseReports
    got = CaseReports.of_dir("books/.out").cases
    ctx.reach("cut" if at < len(text) else "whole")
    for i, g in enumerate(got):
        ctx.check(g[0] == rs[i][0] and g[1].name == rs[i][1], lambda: "record %r instead of %r" % (g, rs[i]))
        if i < len(got) - 1:
            ctx.check(g[2] == float(rs[i][2]), lambda: "duration %r instead of %r" % (g, rs[i]))
    # every complete line is a record
    whole = text[:at].count("\n")
    ctx.check(whole <= len(got) <= whole + 1, lambda: "%d records of %r" % (len(got), text[:at]))
    ran = []
    cases = [(r[0], make(ctx, r[0], lambda x: "OK", ran, [])) for r in rs]
    for r in rs:
        lib.write("books/%s.md" % r[0], "line\n")
    lib.main(cases, ["-c"] + [r[0] for r in rs])
    ok = [g[0] for g in got if g[1].name == "OK"]
    ctx.check(ran == [r[0] for r in rs if r[0] not in ok], lambda: "%r ran after %r" % (ran, text[:at]))


V4 = ["OK", "DIFF", "FAIL", "raise"]
R4 = [None, "OK", "DIFF", "FAIL"]
HARNESSES = [
    Harness("old reports", old_reports, dict(n=2, verdicts=V4, records=R4, flags=[], modes=[True, False]),
            dict(n=3, verdicts=V4, records=R4, flags=[], modes=[True, False]),
            bounds="2 (3) cases, every old report, selection and outcome", witness=("skipped", "all")),
    Harness("interrupted", interrupted, dict(n=2, verdicts=["OK", "DIFF", "FAIL"], records=R4[:3], points=45, rounds=1),
            dict(n=2, verdicts=["OK", "DIFF", "FAIL"], records=R4[:3], points=45, rounds=2),
            bounds="2 cases, one interruption (two) at every file system change and call of a test, then continuing",
            witness=("interrupted", "to the end")),
    Harness("cut", cut, dict(records=["OK", "DIFF", "FAIL"], tail=2), dict(records=["OK", "DIFF", "FAIL"], tail=4),
            bounds="a report of 2 (4) records cut at every byte", witness=("cut", "whole")),
    Harness("large", large.continued, dict(n=60),
            dict(n=300),
            bounds="60 cases of which none, one, two or all are not OK", timeout=120, witness=("done",)),
]
