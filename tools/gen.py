#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props.py and specs.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
from specs import SPECS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, "properties.jsonl"), "w") as fd:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        fd.write(json.dumps(p) + "\n")
checks, na = [], []
for p in PROPS:
    s = SPECS.get(p["id"])
    if not s:
        na.append({"property": p["id"], "reason": "check still to be built in this family"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"python3 tools/check.py {p['id']}",
        "thorough_cmd": f"python3 tools/check.py {p['id']} --tier thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": s["technique"], "level": s.get("level", "exploration"), "level_note": s["level_note"],
    })
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "WREPORT_VERIF", "enable": "the checks compile /repo's sources with -DWREPORT_VERIF=1; no hook was needed, so no code in /repo depends on it", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "One runner (tools/check.py) for all checks; harness sources in harness/, which use only the public interface of the library; objects cached in build/ by preprocessed content. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
