#!/usr/bin/env python3
"""writes DESIGN.md: tools/design_head.md + the table of planted bugs with the recorded outcome of their checks (tools/seeded_results.json)"""
import json, os
V = "/verif"; R = json.load(open(V + "/tools/seeded_results.json")) if os.path.exists(V + "/tools/seeded_results.json") else {}
o = open(V + "/tools/design_head.md").read().rstrip() + "\n\n| planted bug | property | what it needs | outcome |\n|---|---|---|---|\n"
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    o += "| %s | %s | %s | %s |\n" % (i, m["property"], m["needs"].replace("|", "/"), R.get(i, "not run yet"))
t = V + "/tools/design_tail.md"
if os.path.exists(t): o += "\n" + open(t).read()
open(V + "/DESIGN.md", "w").write(o)
