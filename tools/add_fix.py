"""python3 tools/add_fix.py C04 <commit> <what failed>"""
import json, sys, os
F = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(F)); p, c, w = sys.argv[1:4]
d["findings"].append({"status": "fixed", "property": p, "commit": c, "what": w, "line": f"fixed: property={p} {c} {w}"})
json.dump(d, open(F, "w"), indent=1); open(F, "a").write("\n")
