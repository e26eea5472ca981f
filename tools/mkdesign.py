"""Writes /verif/DESIGN.md from design_text.py, the harnesses' bounds and the planted bugs."""
import json, os, sys, types
HERE = os.path.dirname(os.path.abspath(__file__))
TOP = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from design_text import HEAD, HOW, TAIL, SEED_NOTES

sys.path.insert(0, TOP)
sys.path.insert(0, "/repo")
sys.dont_write_bytecode = True
import importlib
out = [HEAD, "\n## Properties\n"]
for l in open(os.path.join(TOP, "properties.jsonl")):
    p = json.loads(l)
    m = importlib.import_module("props." + p["id"].lower())
    out.append("\n### %s %s\n\n%s\n\n" % (p["id"], p["title"], HOW[p["id"]]))
    out.append("Anchored in: %s.\n\n" % ", ".join(p["anchors"]["files"]))
    for h in m.HARNESSES:
        out.append("* `%s`: %s\n" % (h.name, h.bounds or "as written in the harness"))
    for a in m.ASSUMPTIONS:
        out.append("* assumed: %s\n" % a)
    out.append("* the numbers in parentheses are the thorough tier; evidence/%s.json has functions encoded, queries and solver time\n" % p["id"])
out.append(TAIL)
out.append("\n## Planted bugs (seeded/) and the checks that catch them\n\n| bug | property | needs | what it breaks | note |\n|-|-|-|-|-|\n")
for s in sorted(os.listdir(os.path.join(TOP, "seeded"))):
    d = json.load(open(os.path.join(TOP, "seeded", s, "meta.json")))
    out.append("| %s | %s | %s | %s | %s |\n" % (s, d["property"], d["needs"], d["what_it_breaks"], SEED_NOTES.get(s, "caught at once")))
open(os.path.join(TOP, "DESIGN.md"), "w").write("".join(out))
