#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table of claimed checks."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{root}/properties.jsonl")]
T = "property-based testing: generated requests and ledgers against the real program in a transaction-level runtime model; tape-based shrinking"
NOTES = json.load(open(f"{root}/bin/notes.json"))
checks, na = [], []
for p in props:
    n = NOTES.get(p["id"])
    if n is None:
        na.append({"property": p["id"], "reason": "the check is still being built"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"bin/check.sh {p['id']} quick",
        "thorough_cmd": f"bin/check.sh {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": n.get("technique", T),
        "level": "exploration",
        "level_note": n["note"],
    })
m = {"version": 1, "setup_cmd": "bin/setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
open(f"{root}/MANIFEST.json", "a").write("\n")
