"""mkseeds.py [id...]: writes seeded/<id>/ from tools/seed_list.py, and confirms each one against /repo:
the patch applies, builds, passes the tests, and its demo fails with it and passes without; then runs the check."""
import json, os, subprocess, sys, difflib, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from seed_list import SEEDS
TOP = os.path.dirname(HERE)
REPO = "/repo"

PRELUDE = '''import sys, os, io, tempfile, shutil, atexit, subprocess, json, contextlib
REPO = os.getcwd()
sys.path.insert(0, REPO)
os.environ["PYTHONPATH"] = REPO
import booktest as bt
D = os.path.realpath(tempfile.mkdtemp())
os.environ["HOME"] = D
os.chdir(D)
ME = os.getpid()
atexit.register(lambda: os.getpid() == ME and shutil.rmtree(D, ignore_errors=True))


def write(p, text):
    if os.path.dirname(p):
        os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w") as f:
        f.write(text)


def read(p):
    with open(p) as f:
        return f.read()


def run(cases, selected=None, config=None, cache=None):
    """runs [(name, function)]; the verdicts"""
    tests = cases if isinstance(cases, bt.Tests) else bt.Tests([list(c) for c in cases])
    os.makedirs("books", exist_ok=True)
    bt.TestRun("books", "books/.out", "books/.out", tests, selected or tests.all_names(), dict(config or {}),
               {} if cache is None else cache, io.StringIO()).run()
    return dict([tuple(l.split("\\t")[:2]) for l in read("books/.out/cases.txt").splitlines()])


def main(cases, *args):
    """the command line: exit code and text"""
    tests = cases if isinstance(cases, bt.Tests) else bt.Tests([list(c) for c in cases])
    o = io.StringIO()
    with contextlib.redirect_stdout(o):
        rc = tests.exec("books", list(args))
    return rc, o.getvalue()


'''
SH = '''#!/bin/bash
exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def write(p, s):
    with open(p, "w") as f:
        f.write(s)


def main():
    only = sys.argv[1:]
    check = "--no-check" not in only
    only = [o for o in only if not o.startswith("--")]
    bad = 0
    for s in SEEDS:
        if only and s["id"] not in only and s["property"] not in only:
            continue
        d = os.path.join(TOP, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        assert sh("git -C /repo status --porcelain").stdout == "", "dirty"
        try:
            for f, old, new in s["edits"]:
                p = os.path.join(REPO, f)
                t = open(p).read()
                assert t.count(old) == 1, (s["id"], t.count(old), old)
                write(p, t.replace(old, new))
            diff = sh("git -C /repo diff").stdout
            write(os.path.join(d, "patch.diff"), diff)
            write(os.path.join(d, "demo.py"), PRELUDE + s["demo"].lstrip("\n"))
            write(os.path.join(d, "demo.sh"), SH)
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            write(os.path.join(d, "meta.json"), json.dumps({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, indent=1) + "\n")
            b = sh("bash /opt/vp/build.sh")
            t = sh("bash /opt/vp/test.sh /tmp/seed.json")
            with_ = sh("bash %s/demo.sh" % d, cwd=REPO)
            caught = "-"
            if check:
                c = sh("timeout 900 python3 check.py %s" % s["property"], cwd=TOP)
                caught = "caught" if c.returncode == 1 and "VIOLATION property=" + s["property"] in c.stdout else "MISSED rc=%d" % c.returncode
        finally:
            sh("git -C /repo checkout -- .")
            sh("bash /opt/vp/build.sh")
        without = sh("bash %s/demo.sh" % d, cwd=REPO)
        ok = b.returncode == 0 and "59 passed" in t.stdout and with_.returncode != 0 and without.returncode == 0
        bad += not ok
        print(s["id"], "ok" if ok else "BAD: build %d, tests %s, demo with %d, without %d\n%s" % (
            b.returncode, t.stdout.strip()[-40:], with_.returncode, without.returncode, without.stderr[-800:]), caught, flush=True)
        if ok:
            print("    ", with_.stderr.strip().splitlines()[-1:] , flush=True)
    return bad


sys.exit(main())
