#!/usr/bin/env python3
"""Writes DESIGN.md from the two text parts, the registry and seeded/*/meta.json (with results in tools/bugs.json)."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(R, "tools")
sys.path.insert(0, os.path.join(R, "checks"))
sys.path.insert(0, T)
from registry import CHECKS
from oracles import ORACLE
from na import NA
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
out = [open(os.path.join(T, "design_head.md")).read()]
out.append("## Properties\n\nFor each: how it is decided, the bounds of the quick tier (run on every change), the bounds of the\nthorough tier where they differ, and what lies outside.\n")
for p in props:
    i = p["id"]
    if i not in CHECKS:
        continue
    c = CHECKS[i]
    out.append("### %s %s\n" % (i, p["title"]))
    out.append(ORACLE[i] + "\n")
    out.append("- Bounds: %s." % c["bounds"]["quick"])
    if c["bounds"]["thorough"] != c["bounds"]["quick"]:
        out.append("- Thorough: %s." % c["bounds"]["thorough"])
    out.append("- Outside: %s." % c["outside"])
    for a in c["assumptions"]:
        out.append("- Assumption: %s." % a)
    out.append("")
out.append("## Not applicable\n")
for p in props:
    if p["id"] not in CHECKS:
        out.append("- %s (%s): %s" % (p["id"], p["title"], NA[p["id"]]))
if all(p["id"] in CHECKS for p in props):
    out.append("None; the parts of each property outside of its check are listed above.")
out.append("")
out.append(open(os.path.join(T, "design_tail.md")).read())
out.append("## Planted bugs\n\n`seeded/<id>` holds changes that compile and pass the existing tests.  They were written from the code,\nwithout regard to the bounds of the checks.  Missed ones led to the extension named in the last column.\n")
out.append("| bug | property | what it breaks | result |\n|---|---|---|---|")
res = json.load(open(os.path.join(T, "bugs.json")))
S = os.path.join(R, "seeded")
for d in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, d, "meta.json")))
    out.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"], res.get(d, "caught by " + m["property"])))
open(os.path.join(R, "DESIGN.md"), "w").write("\n".join(out) + "\n")
