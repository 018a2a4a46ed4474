#!/usr/bin/env python3
"""Brings the table of planted bugs in DESIGN.md up to date."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | needs |", "|---|---|---|"]
for d in sorted(glob.glob(os.path.join(here, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    rows.append("| %s | %s | %s |" % (os.path.basename(d), m.get("caught_by", m["property"]), m["needs"]))
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
s = re.sub(r"(<!-- table -->\n).*?(\n<!-- end -->)", lambda k: k.group(1) + "\n".join(rows) + k.group(2), s, flags=re.S)
open(p, "w").write(s)
