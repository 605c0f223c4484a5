#!/usr/bin/env python3
"""Rewrite the last section of DESIGN.md: the planted bugs and what catches them (results in tools/caught.json)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(V + "/tools/caught.json"))
text = open(V + "/DESIGN.md").read().split("## Planted bugs")[0].rstrip() + "\n\n## Planted bugs\n\nEach was written from the property and the code, kept with its demonstration in `seeded/`, and tried against the quick check of its property (and others where noted).\n\n| bug | needs | breaks | caught by |\n|---|---|---|---|\n"
for p in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(p))
    b = p.split("/")[-2]
    text += "| %s | %s | %s | %s |\n" % (b, m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/"), caught.get(b, "not tried"))
open(V + "/DESIGN.md", "w").write(text)
