"""Regenerates MANIFEST.json from properties.jsonl and the check modules present."""
import importlib.util
import json
import os
import re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
TECH = json.load(open(os.path.join(HERE, "tools", "techniques.json")))
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(HERE, "checks", pid.lower() + ".py")):
        tech, note = TECH.get(pid, ["property-based testing (Hypothesis) against an explicit oracle", ""])
        checks.append(dict(
            property=pid, quick_cmd=f"/opt/venv/bin/python run.py {pid} --tier quick",
            thorough_cmd=f"/opt/venv/bin/python run.py {pid} --tier thorough",
            evidence_file=f"evidence/{pid}.json", technique=tech, level="exploration",
            level_note=note or ("Generated cases against an explicit oracle; no claim beyond the cases "
                                "explored. Trusts numpy/scipy and IEEE arithmetic.")))
    else:
        na.append(dict(property=pid, reason="no check built yet"))
m = dict(version=1, setup_cmd="/opt/venv/bin/python run.py --selftest", checks=checks,
         not_applicable=na,
         notes="No hooks in /repo: all checks use the public interface of the package. "
               "Pure Python: a check imports /repo/extensisq from source, bypassing byte-code caches.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
