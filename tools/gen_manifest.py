#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks below and properties.jsonl."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
src = open(os.path.join(ROOT, "harness", "main.py")).read()
have = dict(re.findall(r'"(C\d\d)": "(\w+)"', src))
NOTES = json.load(open(os.path.join(ROOT, "tools", "notes.json")))
checks, na = [], []
for i in ids:
    if i not in have:
        na.append({"property": i, "reason": "no check built yet"})
        continue
    n = NOTES.get(i, {})
    checks.append({"property": i, "quick_cmd": "./check %s" % i, "thorough_cmd": "./check %s thorough" % i,
                   "technique": n.get("technique", "TLA+ specification checked with TLC; its cases replayed on the code, recorded runs judged by it"),
                   "level": "model_checking",
                   "level_note": n.get("note", "TLC explores the bounded model completely; the code is bound to it by replay of every emitted case and by judged random runs.")})
m = {"version": 1, "setup_cmd": "./setup", "checks": checks}
if na:
    m["not_applicable"] = na
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not yet")
