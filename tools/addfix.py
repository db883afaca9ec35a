"""addfix.py PROP COMMIT TEXT: records a repaired defect in known_findings.json."""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
n = len(d["findings"]) + 1
d["findings"].append({"id": "F%02d" % n, "property": sys.argv[1], "status": "fixed", "commit": sys.argv[2],
                      "what": "fixed: property=%s %s %s" % (sys.argv[1], sys.argv[2], sys.argv[3])})
json.dump(d, open(p, "w"), indent=1)
open(p, "a").write("\n")
print("F%02d" % n)
