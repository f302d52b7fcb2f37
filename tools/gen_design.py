#!/usr/bin/env python3
"""Writes DESIGN.md: fixed chapters below, one section per property from properties.jsonl, spec.py and SECTIONS, and the catch matrix from tools/catches.json."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here); sys.dont_write_bytecode = True
from spec import CHECKS
from design_text import HEAD, SECTIONS, TAIL
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
out = [HEAD.strip(), "\n## The properties, one by one\n"]
for p in props:
    i = p["id"]; c = CHECKS.get(i); s = SECTIONS[i]
    out.append("### %s  %s\n" % (i, p["title"]))
    if not c:
        out.append("Not claimed: %s\n" % s); continue
    q = [x for x in c["parts"] if "quick" in x.tiers]
    out.append("- *Enumerated*: %s.\n  Explorers: %s (%d builds in the quick tier, %d in the thorough one)." % (c["note"], ", ".join("`mc/%s`" % x for x in sorted({x.src for x in c["parts"]})), len(q), len([x for x in c["parts"] if "thorough" in x.tiers])))
    out.append("- *Oracle*: %s" % s["oracle"])
    out.append("- *Bounds and assumptions*: %s." % ("; ".join(c.get("assume") or ()) or "those of the enumeration above"))
    out.append("- *Cost*: %s" % s["cost"])
    out.append("- *What tests cannot do*: %s" % s["why"])
    if s.get("extra"): out.append("- *Notes*: %s" % s["extra"])
    out.append("")
out.append(TAIL.strip())
cat = os.path.join(here, "tools", "catches.json")
if os.path.exists(cat):
    rows = json.load(open(cat))
    out.append("\n\n## Planted bugs and the checks that catch them\n\nEach was written from the statement of a property, builds, passes the %s stable tests of the repository, and fails its own demonstration.\n\n| planted bug | property | what is broken | needs | caught by |\n|---|---|---|---|---|" % 191)
    for r in rows:
        out.append("| %s | %s | %s | %s | %s |" % tuple(str(r[k]).replace("|", "\\|").replace("\n", " ") for k in ("id", "property", "what", "needs", "caught")))
open(os.path.join(here, "DESIGN.md"), "w").write("\n".join(out).rstrip() + "\n")
print(len(props), "sections")
