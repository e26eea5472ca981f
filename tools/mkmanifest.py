"""Writes /verif/MANIFEST.json from the property modules that exist."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "props", i.lower() + ".py")):
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py " + i,
            "thorough_cmd": "python3 check.py %s --thorough" % i,
            "technique": "symbolic execution of the real Python source (instrumented on load), each branch and assertion "
                         "decided by Z3; counterexamples replayed on the unmodified code",
            "level": "model_checking",
            "level_note": "exhaustive over all symbolic inputs within the bounds stated in the evidence file; "
                          "DESIGN.md lists the bounds and what is outside them",
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check has been built yet")})
m = {"version": 1, "setup_cmd": "python3 check.py --selftest", "checks": checks, "not_applicable": na}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
