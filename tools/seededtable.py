#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md (between the marks)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % d))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].strip().replace("|", "/"), m["needs"].strip().replace("|", "/")))
t = "<!-- seeded -->\n| planted bug | caught by | what it breaks | what it needs |\n|---|---|---|---|\n" + "\n".join(rows) + "\n<!-- /seeded -->"
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!-- seeded -->.*<!-- /seeded -->|SEEDED_TABLE", lambda m: t, s, flags=re.S)
open(p, "w").write(s)
print(len(rows))
