#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md, then one section per property, the findings and the planted bugs."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, V + "/tools")
import specs
from bounds import B
o = [open(V + "/tools/design_head.md").read().rstrip(), "", "## Properties", ""]
for p in map(json.loads, open(V + "/properties.jsonl")):
    i = p["id"]
    s = specs.SPECS.get(i)
    o.append("### %s %s" % (i, p["title"]))
    if not s:
        o.append("Not applicable: " + specs.NA[i])
    else:
        how, bound, out = B[i]
        o.append(how)
        o.append("- Entries: " + ", ".join("%s (%s)" % (e["fn"], e["file"]) for e in s["entries"]))
        o.append("- Bounds: " + bound)
        if out != "-":
            o.append("- Outside: " + out)
    o.append("")
o += ["## Defects found and repaired", "", "Each is a `fix:` commit in /repo; reverting it makes the named check report a violation again.", ""]
for k in json.load(open(V + "/known-findings.json")):
    o.append("- " + k["what"])
o += ["", "## Planted bugs (seeded/)", "", "| id | property | needs | caught by |", "|---|---|---|---|"]
try:
    caught = json.load(open(V + "/tools/caught.json"))
except OSError:
    caught = {}
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m)); n = m.split("/")[-2]
    o.append("| %s | %s | %s | %s |" % (n, d["property"], str(d.get("needs", "")).replace("|", "/"), caught.get(n, "?")))
open(V + "/DESIGN.md", "w").write("\n".join(o) + "\n")
