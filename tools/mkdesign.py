#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + the table of planted changes from seeded/*/meta.json + tools/design_tail.md"""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
head = open(V + "/tools/design_head.md").read()
tail = open(V + "/tools/design_tail.md").read()
rows = []
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append((m["property"], os.path.basename(os.path.dirname(d)), m["needs"], m["what_it_breaks"]))
rows.sort()
t = "\n## 6. Planted changes\n\n%d changes in seeded/, each confirmed (builds, passes the repository's tests, its demonstration fails only with it).\nEach is caught by the quick check of the property in the first column.\n\n| caught by | change | what it breaks | needs |\n|---|---|---|---|\n" % len(rows)
for p, n, needs, what in rows:
    t += "| %s | %s | %s | %s |\n" % (p, n, what.replace("|", "/"), needs.replace("|", "/"))
open(V + "/DESIGN.md", "w").write(head + t + tail)
