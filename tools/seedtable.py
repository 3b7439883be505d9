#!/usr/bin/env python3
"""Writes the table of the planted bugs into DESIGN.md."""
import json, glob, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["<!-- seeds -->", "| bug | caught by | what it breaks | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    d = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (f.split("/")[-2], d["property"], d["what_it_breaks"], d["needs"]))
rows.append("<!-- end -->")
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
s = s.replace("@@SEEDS@@", "<!-- seeds -->\n<!-- end -->")
s = re.sub("<!-- seeds -->.*<!-- end -->", lambda m: "\n".join(rows), s, flags=re.S)
open(p, "w").write(s)
