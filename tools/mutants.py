"""Development aid: apply small changes to a copy of /repo and see whether the named check reports them.
usage: mutants.py [ID-prefix ...]     (no check uses this)"""
import os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(__file__))
import importlib
MUTANTS = importlib.import_module(os.environ.get("MUTANTS", "mutant_list")).MUTANTS

REPO = os.environ.get("SX_REPO", "/repo")
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
want = sys.argv[1:]
missed = 0
for prop, name, file, old, new in MUTANTS:
    if want and not any(prop.startswith(w) or name.startswith(w) for w in want):
        continue
    d = tempfile.mkdtemp(prefix="mut", dir="/tmp")
    try:
        shutil.copytree(REPO + "/booktest", d + "/booktest")
        p = d + "/booktest/" + file
        s = open(p).read()
        if s.count(old) < 1:
            print("%s %-40s STALE" % (prop, name), flush=True)
            continue
        open(p, "w").write(s.replace(old, new, 1))
        r = subprocess.run([sys.executable, root + "/check.py", prop], capture_output=True, text=True,
                           env=dict(os.environ, SX_REPO=d, SX_EVIDENCE=d + "/ev"), cwd=root)
        lines = [l for l in r.stdout.split("\n") if "violation:" in l or "inconclusive" in l.lower()]
        msg = (lines[0] if lines else r.stdout[-200:].replace("\n", " "))[:150]
        ok = r.returncode == 1
        missed += not ok
        print("%s %-40s %s %s" % (prop, name, "killed" if ok else "MISSED rc=%d" % r.returncode, msg), flush=True)
    finally:
        shutil.rmtree(d)
print("missed", missed)
