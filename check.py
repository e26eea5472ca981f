#!/usr/bin/env python3
"""check.py <property> [--thorough] [--only harness,...]     or     check.py --replay <file>"""
import os, sys
PY = "/opt/venv/bin/python"
if os.path.exists(PY) and os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv") or \
        os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    py = PY if os.path.exists(PY) else sys.executable
    os.execv(py, [py, os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import json
from sx import run


def main(a):
    if a and a[0] == "--replay":
        d = json.load(open(a[1]))
        import tempfile, shutil
        from sx.env import scratch_base
        base = tempfile.mkdtemp(prefix="sxr.", dir=scratch_base())
        os.chmod(base, 0o777)
        try:
            r = run.Concrete(d["property"], d["tier"], base).run([(d["harness"], d["model"])])[0]
        finally:
            shutil.rmtree(base, ignore_errors=True)
        print(json.dumps(r, indent=1))
        return 1 if r["status"] in ("violation", "exception", "timeout") else 0
    if a and a[0] == "--selftest":
        from sx.core import z3
        x = z3.Int("x")
        sol = z3.Solver()
        sol.add(x > 2, x < 4)
        assert sol.check() == z3.sat and sol.model()[x].as_long() == 3
        run.setup_imports(True)
        import importlib
        importlib.import_module("booktest")
        print("ok: z3 %s, booktest loads instrumented" % z3.get_version_string())
        return 0
    prop = a[0].upper()
    tier = "thorough" if "--thorough" in a or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = None
    if "--only" in a:
        only = a[a.index("--only") + 1].split(",")
    r = run.explore(prop, tier, seed, only=only)
    return run.report(r)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
