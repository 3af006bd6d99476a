#!/usr/bin/env python3
"""Refreshes the generated parts of DESIGN.md: reasons for what is not claimed, and the planted bugs."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = json.load(open(os.path.join(root, "MANIFEST.json")))
na = "\n".join(f"* {x['property']}: {x['reason']}" for x in m["not_applicable"])
rows = ["| planted bug | caught by | breaks |", "|---|---|---|"]
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    f = os.path.join(root, "seeded", d, "meta.json")
    if os.path.exists(f):
        j = json.load(open(f))
        rows.append(f"| {d} | {j.get('caught_by', j['property'])} | {' '.join(j['what_it_breaks'].split())} |")
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
s = re.sub(r"(## Not applicable\n).*?(\n## Planted bugs)", lambda k: k.group(1) + "\n" + na + "\n" + k.group(2), s, flags=re.S)
s = re.sub(r"(## Planted bugs\n).*", lambda k: k.group(1) + "\nEach was written from a property's text, confirmed with its demo, and run through the checks.\n\n" + "\n".join(rows) + "\n", s, flags=re.S)
open(p, "w").write(s)
