#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import glob
import json
import os
import re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(VERIF, "tools", "manifest_notes.json")))
props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
built = set(re.findall(r'register\("(C\d+)"', "".join(open(f).read() for f in glob.glob(os.path.join(VERIF, "harness", "*.go")))))
checks, missing = [], []
for p in props:
    n = NOTES.get(p["id"])
    if n is None or p["id"] not in built:
        missing.append({"property": p["id"], "reason": "check not built yet"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"python3 tools/run_check.py {p['id']} quick",
        "thorough_cmd": f"python3 tools/run_check.py {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": n[0],
        "level": "exploration",
        "level_note": n[1],
    })
m = {
    "version": 1,
    "setup_cmd": "bash tools/setup.sh",
    "checks": checks,
    "not_applicable": missing,
    "notes": "All checks are generated-input searches (pgregory.net/rapid with fixed seeds derived from VERIF_SEED) against "
             "explicit oracles, through the public API only. Replay a recorded case with 'python3 tools/run_check.py --replay FILE'. "
             "known_findings.txt lists the defects found and repaired.",
}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
