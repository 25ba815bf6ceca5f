"""Writes MANIFEST.json from properties.jsonl and the existing modules."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from pbt.settings import SETTINGS
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
  p = json.loads(line)["id"]
  if os.path.exists(os.path.join(V, "pbt", "props", p.lower() + ".py")):
    s = SETTINGS.get(p, {})
    checks.append({
      "property": p,
      "quick_cmd": f"bash check.sh {p} --tier quick",
      "thorough_cmd": f"bash check.sh {p} --tier thorough",
      "evidence_file": f"evidence/{p}.json",
      "technique": s.get("technique", "property-based testing"),
      "level": "exploration",
      "level_note": s.get("note", "Searches generated inputs, no proof of "
                                  "absence.")})
  else:
    na.append({"property": p, "reason": s.get("na") if False else
               SETTINGS.get(p, {}).get("na", "check not built yet")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
           "not_applicable": na,
           "notes": "No hooks in /repo are needed; fix: commits are listed in "
                    "known_findings.json."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
