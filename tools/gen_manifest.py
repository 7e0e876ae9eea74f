#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the list of checks that exist and their notes."""
import json, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{here}/properties.jsonl") if l.strip()]
notes = json.load(open(f"{here}/tools/levels.json"))
mod = open(f"{here}/harness/src/props/mod.rs").read()
have = set(re.findall(r'"(C\d\d)" =>', mod))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have and i in notes:
        t, n = notes[i]
        checks.append({
            "property": i,
            "quick_cmd": f"bash check.sh {i} quick",
            "thorough_cmd": f"bash check.sh {i} thorough",
            "technique": t,
            "level": "exploration",
            "level_note": n,
        })
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {
    "version": 1,
    "setup_cmd": "bash build.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: every check drives the public API. Replay a failure with: bash check.sh <id> quick --replay <path>",
}
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
open(f"{here}/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
