#!/usr/bin/env python3
"""Writes MANIFEST.json; a property is claimed when harness/src/props/mod.rs serves it."""
import json, re, os, subprocess
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
props = [json.loads(l) for l in open(f"{root}/properties.jsonl")]
mod = open(f"{root}/harness/src/props/mod.rs").read()
claimed = set(re.findall(r'"(C\d\d)" =>', mod))
from notes import NOTES  # id -> (technique, level, note)
checks, na = [], []
for p in props:
    i = p["id"]
    if i in claimed:
        t, l, n = NOTES[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                       "technique": t, "level": l, "level_note": n})
    else:
        na.append({"property": i, "reason": "not built yet"})
m = {"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": na}
hooks = f"{root}/tools/hooks.json"
if os.path.exists(hooks):
    m["hooks"] = json.load(open(hooks))
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
