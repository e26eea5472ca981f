"""Shared by the harnesses: running tests of the code under test and reading what it left behind."""
import io, os
import booktest as bt
from booktest.reports import TestResult

EXP = "books"
OUT = "books/.out"


class Outcome:
    def __init__(self, verdict, text, exp, out):
        self.verdict = verdict
        self.text = text
        self.exp, self.out = exp, out
        self.cases = read_cases(os.path.join(out, "cases.txt"))

    def of(self, name):
        r = [c[1] for c in self.cases if c[0] == name]
        return r[0] if len(r) == 1 else r


def read(path):
    """exact content, or None"""
    if not os.path.exists(path):
        return None
    with open(path, "r", newline="") as f:
        return f.read()


def write(path, text):
    d = os.path.dirname(path)
    if d:
        os.makedirs(d, exist_ok=True)
    with open(path, "w", newline="") as f:
        f.write(text)


def tree(top):
    """{relative path: content} of all files, and directories as None"""
    out = {}
    for root, dirs, files in os.walk(top):
        for d in dirs:
            out[os.path.relpath(os.path.join(root, d), top) + "/"] = None
        for f in files:
            p = os.path.join(root, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, top)] = h.read()
    return out


def read_cases(path):
    t = read(path)
    out = []
    if t is None:
        return out
    for line in t.split("\n"):
        if line != "":
            parts = line.split("\t")
            out.append((parts[0], parts[1] if len(parts) > 1 else None, parts[2] if len(parts) > 2 else None))
    return out


def run(cases, config=None, selected=None, cache=None, exp=EXP, out=OUT, output=None):
    """a serial run of [(name, function)]"""
    os.makedirs(exp, exist_ok=True)
    tests = cases if isinstance(cases, bt.Tests) else bt.Tests([[n, f] for n, f in cases])
    o = io.StringIO() if output is None else output
    sel = [c[0] for c in tests.cases] if selected is None else selected
    r = bt.TestRun(exp, out, out, tests, sel, dict(config or {}), {} if cache is None else cache, o)
    v = r.run()
    return Outcome(v, o.getvalue(), exp, out)


def main(tests, args, root=EXP, cache=None):
    """the command line on [(name, function)]: exit code and printed text"""
    import sys
    os.makedirs(root, exist_ok=True)
    tests = tests if isinstance(tests, bt.Tests) else bt.Tests([[n, f] for n, f in tests])
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        rc = tests.exec(root, list(args), cache)
        text = sys.stdout.getvalue()
    finally:
        sys.stdout = old
    return rc, text


def lines(text):
    """the lines of a text, an unfinished last one included"""
    ls = text.split("\n")
    if ls[-1] == "":
        ls.pop()
    return ls


OK, DIFF, FAIL = "OK", "DIFF", "FAIL"
