#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["what_it_breaks"].replace("|", "\\|"), m["needs"].replace("|", "\\|"), m.get("caught_by", m["property"])))
s = open(here + "/DESIGN.md").read()
table = "<!-- seeded -->\n| planted change | breaks | needs | caught by (quick) |\n|---|---|---|---|\n" + "\n".join(rows) + "\n<!-- /seeded -->"
s = re.sub(r"<!-- seeded -->.*?<!-- /seeded -->", lambda _: table, s, flags=re.S)
open(here + "/DESIGN.md", "w").write(s)
