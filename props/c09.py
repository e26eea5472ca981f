"""C09 A snapshot changes only by acceptance, and then to exactly the output"""
import os
from sx.ctx import Harness
from sx.core import ALL_UNICODE, charset
from props import lib

LINE = ALL_UNICODE.minus(charset("\r\n"))
ASSUMPTIONS = ["viewers and diff tools are stand-ins that only record how they are called"]


def owned(name):
    """the snapshot and companion files of a case"""
    return {k: v for k, v in lib.tree("books").items() if (k == name + ".md" or k.startswith(name + "/"))}


def output_of(name):
    return {k: v for k, v in lib.tree("books/.out").items() if (k == name + ".md" or k.startswith(name + "/"))}


def make_test(verdict, files, sub):
    def test(t):
        t.tln("line")
        if verdict == "FAIL":
            t.fail().tln("line 2")
        elif verdict == "DIFF":
            t.tln("line two")
        else:
            t.tln("line 2")
        for f in files:
            with open(t.file(f), "w") as h:
                h.write("new " + f)
        if sub:
            os.makedirs(t.file("sub"))
            with open(os.path.join(t.file("sub"), "deep"), "w") as h:
                h.write("deep")
    return test


def answers_of(ctx, n, alphabet):
    answers = [ctx.text("ans%d" % k, (0, 1), alphabet) for k in range(n)]
    extra = ctx.choice("extra", ["", "ac"])
    if extra:
        answers[0] = extra
    return answers


def run_interaction(answers, verdict, config):
    """what the documented dialogue does: (accepted, aborted, number of questions)"""
    ask = config["always_interactive"] or config["interactive"] and verdict != "OK"
    accepted = aborted = False
    asked = 0
    if ask:
        for a in answers + ["c"]:
            asked += 1
            if a == "a" and verdict != "FAIL":
                accepted = True
                break
            if a == "c":
                break
            if a == "q":
                aborted = True
                break
    accepted = accepted or verdict == "OK" and config["update"] or verdict == "DIFF" and config["accept"]
    return accepted, aborted, asked


def feed(ctx, answers):
    left = list(answers) + ["c"]

    def hook(prompt):
        ctx.check(len(left) > 0, "asked again after the case was continued")
        return left.pop(0)
    ctx.env.input_hook = hook
    return left


def setup_case(name, verdict, has_snapshot, old_files):
    if has_snapshot:
        lib.write("books/%s.md" % name, "line\nline 2\n")
    for f in old_files:
        lib.write("books/%s/%s" % (name, f), "old " + f)


def one_case(ctx, nans, alphabet, modes, again, rich):
    name = ctx.choice("name", ["x", "dir/x"]) if rich else "x"
    kind = ctx.choice("verdict", ["OK", "DIFF", "FAIL", "NEW", "NEWFAIL"])
    config = {k: ctx.flag(k) for k in ("accept", "update", "interactive", "always_interactive")}
    config["verbose"] = ctx.flag("verbose") if rich else False
    mode = ctx.choice("mode", modes)
    has_snapshot = not kind.startswith("NEW")
    behave = {"NEW": "DIFF", "NEWFAIL": "FAIL"}.get(kind, kind)
    old_files = ctx.choice("old files", [[], ["f", "gone"]])
    new_files = ctx.choice("new files", [[], ["f", "g"]]) if rich or not old_files else ["f", "g"]
    setup_case(name, kind, has_snapshot, old_files)
    # a neighbour whose name begins the same, and the case's own name as a directory of another case
    lib.write("books/" + name + "y.md", "neighbour\n")
    lib.write("books/" + name + "y/file", "neighbour file")
    before = owned(name)
    other = owned(name + "y")
    sub = ctx.flag("sub") if new_files and rich else False
    test = make_test(behave, new_files, sub)
    answers = answers_of(ctx, nans, alphabet) if config["interactive"] or config["always_interactive"] else []
    left = feed(ctx, answers)
    config.update(md_viewer="viewer", diff_tool="differ", log_viewer="logs")
    accepted, aborted, asked = run_interaction(answers, behave, config)
    if mode == "run":
        r = lib.run([(name, test)], config)
    else:
        quiet = dict(config, interactive=False, always_interactive=False, accept=False, update=False)
        r0 = lib.run([(name, test)], quiet)
        ctx.check(r0.of(name) == behave, "verdict of the plain run")
        ctx.check(owned(name) == before, "a plain run changed the snapshot")
        from booktest.review import review
        rc = review("books", "books/.out", config, None)
        r = lib.Outcome(None, "", "books", "books/.out")
    verdict = r.of(name)
    ctx.observe("verdict", verdict)
    after = owned(name)
    want = "OK" if accepted else behave
    ctx.check(verdict == want, lambda: "%s instead of %s with %r, answers %r" % (verdict, want, config, answers))
    ctx.check(len(left) == len(answers) + 1 - asked, "asked %d times instead of %d" % (len(answers) + 1 - len(left), asked))
    ctx.check(owned(name + "y") == other, "another case's files changed")
    new = {name + ".md": {"OK": b"line\nline 2\n", "DIFF": b"line\nline two\n", "FAIL": b"line\nline 2\n"}[behave]}
    if new_files:
        new[name + "/"] = None
        del new[name + "/"]
        for f in new_files:
            new[name + "/" + f] = b"new " + f.encode()
        if sub:
            new[name + "/sub/"] = None
            new[name + "/sub/deep"] = b"deep"
    if accepted:
        ctx.reach("accepted")
        got = {k: v for k, v in after.items() if k != name + "/"}
        ctx.check(got == new, lambda: "accepted, but the snapshot is %r instead of %r" % (got, new))
        ctx.check((name + "/" in after) == bool(new_files), "companion directory without output companions, or missing")
    else:
        ctx.reach("rejected")
        ctx.check(after == before, lambda: "not accepted, but the snapshot changed from %r to %r" % (before, after))
        got = {k: v for k, v in output_of(name).items() if k != name + "/"}
        ctx.check(got == new, "the output is gone")
    for argv in ctx.env.tools:
        ctx.check(argv[0] in ("viewer", "differ", "logs"), "another tool was run")
    if again:
        # the same once more: a run starts over, a review has nothing left to accept
        if mode == "run":
            keep = {"OK": "OK", "DIFF": "OK" if accepted else "DIFF", "FAIL": "FAIL"}[behave]
            a2, _, _ = run_interaction(answers, keep, config)
            left = feed(ctx, answers)
            r = lib.run([(name, test)], config)
            want2 = "OK" if a2 else keep
            ctx.check(r.of(name) == want2, lambda: "second time: %s instead of %s" % (r.of(name), want2))
            got = owned(name)
            if a2 or accepted:
                ctx.check({k: v for k, v in got.items() if k != name + "/"} == new, "second time: not the output")
            else:
                ctx.check(got == before, "second time: changed without acceptance")
        else:
            left = feed(ctx, answers)
            rc = review("books", "books/.out", config, None)
            if accepted:
                ctx.check(owned(name) == after, lambda: "a second review changed %r to %r" % (after, owned(name)))
            r = lib.Outcome(None, "", "books", "books/.out")
            ctx.check(r.of(name) == want, "second review: another verdict")


def neighbours(ctx, pairs):
    """the files of another case, whatever its name"""
    x, y = ctx.choice("names", pairs)
    behave = ctx.choice("verdict", ["OK", "DIFF", "FAIL"])
    config = {k: True for k in ("accept", "update") if ctx.flag(k)}
    had = ctx.flag("has files")
    for n in (x, y):
        lib.write("books/%s.md" % n, "line\nline 2\n")
        lib.write("books/%s/f.txt" % n, "old")
        if had:
            lib.write("books/.out/%s/left.txt" % n, "left")
        lib.write("books/.out/%s.md" % n, "left")
    mine = lambda n, top: {k: v for k, v in lib.tree(top).items() if (k == n + ".md" or k.startswith(n + "/")) and
                           v is not None and not (x.startswith(n + "/") and k.startswith((x + ".", x + "/")))}
    before = mine(y, "books"), mine(y, "books/.out")
    r = lib.run([(x, make_test(behave, ["f.txt"], False)), (y, make_test("OK", ["f.txt"], False))], config, [x])
    after = mine(y, "books"), mine(y, "books/.out")
    nested = y.startswith(x + "/")
    ctx.check(before == after, lambda: "running %s, which is %s, with %r changed the files of %s: %r became %r" % (x, behave, config, y, before, after),
              finding="C09-nested" if nested else None)
    ctx.reach("nested" if nested else "others")


HARNESSES = [
    Harness("answers", one_case, dict(nans=2, alphabet=LINE, modes=["run"], again=False, rich=False),
            dict(nans=3, alphabet=LINE, modes=["run"], again=False, rich=False),
            bounds="every verdict, setting and sequence of up to 2 (3) arbitrary answers, run", witness=("accepted", "rejected")),
    Harness("again", one_case, dict(nans=1, alphabet="acqv", modes=["run", "review"], again=True, rich=True),
            dict(nans=2, alphabet="acqvldDx", modes=["run", "review"], again=True, rich=True),
            bounds="every verdict and setting, one (two) answers, in a run or in a review, twice",
            witness=("accepted", "rejected")),
    Harness("neighbours", neighbours, dict(pairs=[("x", "x2"), ("x", "y/x"), ("d/x", "d/y"), ("x/y", "x"), ("x", "x/y")]),
            bounds="files of another case of five kinds of names", witness=("nested", "others")),
]
