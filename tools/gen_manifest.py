#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules that exist."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
TECH = json.load(open(os.path.join(here, "tools", "techniques.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    path = os.path.join(here, "vk", "checks", i.lower() + ".py")
    if not os.path.exists(path):
        na.append({"property": i, "reason": "check not built yet"})
        continue
    src = open(path).read()
    level = re.search(r'^LEVEL = "(\w+)"', src, re.M).group(1)
    t = TECH.get(i, {})
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i} quick",
        "thorough_cmd": f"./check.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": t.get("technique", "runtime monitoring of real executions with an online oracle"),
        "level": level,
        "level_note": t.get("note", "held on the executions listed in the evidence file; nothing is claimed beyond them"),
    })
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "ECKITY_VERIF_HOOKS", "enable":
               "no hooks were needed: the monitors observe through the public API (events, user-supplied components); "
               "the guard variable is reserved and unused", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
