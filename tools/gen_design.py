#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, the properties, the check modules and the recorded results on planted bugs."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = json.load(open(here + "/tools/techniques.json"))
out = [open(here + "/tools/design_head.md").read().rstrip(), "", "## Properties, monitors and oracles", ""]
for l in open(here + "/properties.jsonl"):
    q = json.loads(l)
    s = open(f"{here}/vk/checks/{q['id'].lower()}.py").read()
    m = re.search(r'RULE = \((.*?)\)\nASSUMPTIONS = (\[.*?\])\n', s, re.S)
    rule, ass = eval("(" + m.group(1) + ")"), eval(m.group(2))
    sc = re.findall(r"Scenario\((\w+), (\d+), (\d+)", s)
    t = T[q["id"]]
    out += [f"### {q['id']} — {q['title']}", "", f"*Technique:* {t['technique']}.", "", f"*Workload and monitor.* {rule}", "",
            f"*Oracle.* {t['oracle'][0].upper() + t['oracle'][1:]}.", "",
            f"*Beyond the tests.* {t['why'][0].upper() + t['why'][1:]}.", ""]
    if sc:
        out += ["*Bounds (cases quick / thorough).* " + "; ".join(f"{a}: {b} / {c}" for a, b, c in sc) + ".", ""]
    out += ["*Assumptions.* " + "; ".join(ass) + ".", ""]
p = here + "/tools/seed_results.json"
if os.path.exists(p):
    R = json.load(open(p))
    out += ["## Planted bugs and the checks that catch them", "",
            "Each was written from the property and the code, confirmed in a scratch copy (demonstration fails with it and passes "
            "without it, the 153 stable tests pass), and run against the quick checks (seed 1).", "",
            "| bug | property | needs | caught by its property's check | also caught by |", "|---|---|---|---|---|"]
    for i in sorted(R):
        mp = f"{here}/seeded/{i}/meta.json"
        if not os.path.exists(mp):
            continue
        me = json.load(open(mp))
        c = R[i]
        out.append(f"| {i} | {me['property']} | {me['needs']} | {'yes' if me['property'] in c else 'no'} | {', '.join(x for x in c if x != me['property']) or '—'} |")
    out.append("")
tail = here + "/tools/design_tail.md"
if os.path.exists(tail):
    out += [open(tail).read().rstrip(), ""]
open(here + "/DESIGN.md", "w").write("\n".join(out))
