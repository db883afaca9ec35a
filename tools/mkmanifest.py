"""Rewrites /verif/MANIFEST.json from properties.jsonl and the check modules that exist."""
import importlib, json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
mods = {}
for f in sorted(glob.glob(os.path.join(V, "checks", "c[0-9]*.py"))):
    m = importlib.import_module("checks." + os.path.basename(f)[:-3])
    mods[m.PROP] = m
NA = {}
if os.path.exists(os.path.join(V, "tools", "not_applicable.json")):
    NA = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
checks = []
for p in props:
    if p in mods:
        m = mods[p]
        checks.append({"property": p, "quick_cmd": "python3 run.py %s --tier quick" % p,
                       "thorough_cmd": "python3 run.py %s --tier thorough" % p,
                       "evidence_file": "evidence/%s.json" % p,
                       "technique": m.TECHNIQUE, "level": m.LEVEL, "level_note": m.LEVEL_NOTE})
man = {"version": 1, "setup_cmd": "python3 setup.py", 
       "hooks": {"guard": "none", "enable": "no hook is needed: the checks use the command line tool and the existing C interfaces", "source_commits": []},
       "checks": checks,
       "not_applicable": [{"property": p, "reason": NA.get(p, "check not built yet")} for p in props if p not in mods],
       "notes": "See DESIGN.md. Known findings and repaired defects: known_findings.json."}
with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
    json.dump(man, fh, indent=1)
    fh.write("\n")
print("claimed:", [c["property"] for c in checks], "not claimed:", [n["property"] for n in man["not_applicable"]])
