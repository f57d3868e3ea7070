#!/usr/bin/env python3
# Rewrites the table of planted bugs in DESIGN.md.
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in glob.glob(V + "/seeded/*/meta.json"):
    d = json.load(open(m))
    rows.append((d["property"], os.path.basename(os.path.dirname(m)), d["needs"].replace("|", "\\|")))
rows.sort()
t = "%d changes (`seeded/`; `tools/seed.py` and `tools/seeds_def.py` write and confirm them), all caught by the quick check of their own property:\n\n| property | bug | needs |\n|---|---|---|\n" % len(rows)
t += "".join("| %s | %s | %s |\n" % r for r in rows)
p = V + "/DESIGN.md"
s = open(p).read()
i = s.index("## Planted bugs\n\n") + len("## Planted bugs\n\n")
j = s.index("\nMissed at first")
open(p, "w").write(s[:i] + t + s[j:])
print(len(rows))
