"""Writes MANIFEST.json from properties.jsonl, the rules present and the tables below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
exec(open(os.path.join(HERE, "tools", "manifest_tables.py")).read())
checks, na = [], []
for p in props:
  pid = p["id"]
  if pid in NA:
    na.append({"property": pid, "reason": NA[pid]})
  elif os.path.exists(os.path.join(HERE, "sa", "rules", pid.lower() + ".py")):
    checks.append({"property": pid, "quick_cmd": f"python3 -m sa.check {pid} quick",
                   "thorough_cmd": f"python3 -m sa.check {pid} thorough",
                   "technique": TECH[pid][0], "level": "other", "level_note": TECH[pid][1]})
  else:
    na.append({"property": pid, "reason": "no check has been built for it yet"})
json.dump({"version": 1, "setup_cmd": "python3 -m sa.selftest", "checks": checks, "not_applicable": na,
           "notes": "All checks are static: they parse /repo/jaxopt and interpret it abstractly; see DESIGN.md."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
