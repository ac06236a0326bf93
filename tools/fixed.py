"""dev: tools/fixed.py PROPERTY COMMIT what... -- add a fixed entry to known_findings.json"""
import json, sys
d = json.load(open("/verif/known_findings.json"))
n = 1 + max([int(f["id"][2:]) for f in d["findings"] if f["id"].startswith("FX")] + [0])
p, c, w = sys.argv[1], sys.argv[2], " ".join(sys.argv[3:])
d["findings"].append({"id": "FX%d" % n, "property": p, "status": "fixed", "commit": c, "what": "fixed: property=%s %s %s" % (p, c, w)})
json.dump(d, open("/verif/known_findings.json", "w"), indent=1)
