#!/usr/bin/env python3
# Rewrites the generated sections of DESIGN.md: findings, planted bugs, what is not claimed.
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = os.path.join(V, "DESIGN.md")
s = open(d).read()
mark = "\n## Findings\n"
if mark in s:
    s = s[:s.index(mark)]
k = json.load(open(os.path.join(V, "known_findings.json")))
out = [s.rstrip() + "\n" + mark, "Repaired (each a `fix:` commit in /repo; the check reports it again if it returns):\n"]
for x in k["fixed"]:
    w = x.replace("fixed: property=", "").split(" ", 2)
    out.append(f"- {w[0]} (`{w[1]}`): {w[2]}")
out.append("\nRecorded, not repaired (`known_findings.json`; the checks print `KNOWN-FINDING`). They need a change of an\n"
           "interface, of stored data or of a proof format, or are what the caller asked for by switching a guard off:\n")
for x in k["known"]:
    out.append(f"- {x['property']}: {x['what']}")
out.append("\n## Planted bugs\n\nEach in `seeded/<id>` with a demonstration; all compile, pass the stable tests and are made from the property's\n"
           "text and the code. `tools/seed.py` confirms them and runs the check.\n\n| id | property | what it breaks | needs | caught by |\n|---|---|---|---|---|")
for i in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = os.path.join(V, "seeded", i, "meta.json")
    if os.path.exists(m):
        m = json.load(open(m))
        out.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {m.get('caught_by', m['property'] + ' quick')} |")
import sys
sys.path.insert(0, os.path.join(V, "tools"))
import registry
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
un = [p for p in props if p["id"] not in registry.CHECKS]
if un:
    out.append("\n## Not claimed\n")
    for p in un:
        out.append(f"- {p['id']} {p['title']}: {registry.NOT_APPLICABLE.get(p['id'], 'not checked yet')}")
open(d, "w").write("\n".join(out) + "\n")
