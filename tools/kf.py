"""kf.py id property what: adds a known finding;  kf.py --fixed property commit what"""
import json, os, sys
P = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(P)) if os.path.exists(P) else []
a = sys.argv[1:]
if a[0] == "--fixed":
    d.append({"id": "%s-fixed-%s" % (a[1], a[2]), "property": a[1], "status": "fixed",
              "what": "fixed: property=%s %s %s" % (a[1], a[2], a[3])})
else:
    d = [x for x in d if x["id"] != a[0]]
    d.append({"id": a[0], "property": a[1], "status": "known", "what": a[2]})
json.dump(d, open(P, "w"), indent=1)
