#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md (between the two markers)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", d, "meta.json")))
    cell = lambda s: " ".join(str(s).split()).replace("|", "\\|")
    rows.append((m["property"], d, cell(m["needs"])))
rows.sort()
text = "| property (its check reports it) | bug | needs |\n|---|---|---|\n" + "".join("| %s | %s | %s |\n" % r for r in rows)
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
a, b = "<!-- seeds -->\n", "<!-- /seeds -->\n"
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + text + s[j:])
print(len(rows), "bugs")
