#!/usr/bin/env python3
"""Rewrite MANIFEST.json from the checks that exist and tool/manifest.txt.

manifest.txt: blocks separated by blank lines
  ID technique: ...
  ID note: ...
  ID na: ..."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
info = {}
for line in open(os.path.join(V, "tool", "manifest.txt")):
    line = line.rstrip("\n")
    if not line.strip() or line.startswith("#"):
        continue
    pid, rest = line.split(None, 1)
    k, v = rest.split(":", 1)
    info.setdefault(pid, {})[k.strip()] = v.strip()
ids = [json.loads(x)["id"] for x in open(os.path.join(V, "properties.jsonl"))]
checks = []
na = []
for pid in ids:
    d = info.get(pid, {})
    if os.path.exists(os.path.join(V, "sa", "checks", pid.lower() + ".py")) \
       and "na" not in d:
        checks.append({
            "property": pid,
            "quick_cmd": "./check " + pid,
            "technique": d["technique"],
            "level": "other",
            "level_note": d["note"],
        })
    else:
        na.append({"property": pid,
                   "reason": d.get("na", "no static check built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
     "not_applicable": na,
     "notes": "Every check compiles /repo's working tree to LLVM bitcode in "
              "a scratch directory, normalises it, and decides its rules by "
              "static analysis of the result. Nothing of /repo is executed. "
              "Exit 2 means the analysis could not be carried out."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
