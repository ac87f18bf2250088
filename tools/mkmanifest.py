#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the harnesses present and tools/notes.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(os.path.join(V, "tools/notes.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    src = os.path.join(V, "harness", i + ".cpp")
    if os.path.exists(src) and i not in notes["not_applicable"]:
        bounds = "; ".join(l.split(":", 1)[1].strip() for l in open(src) if l.startswith("//@ bounds:"))
        checks.append({
            "property": i,
            "quick_cmd": "./check.py %s quick" % i,
            "thorough_cmd": "./check.py %s thorough" % i,
            "technique": notes["technique"].get(i, notes["technique"]["default"]),
            "level": "model_checking",
            "level_note": (notes["level_note"].get(i, "") + " " + notes["level_note"]["default"] + " Bounds: " + bounds).strip(),
        })
    else:
        na.append({"property": i, "reason": notes["not_applicable"].get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "make -s -C engine", "checks": checks, "not_applicable": na, "notes": notes["notes"]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
