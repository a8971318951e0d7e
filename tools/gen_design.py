#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.md and the planted bugs' meta.json files (table at the end)."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
text = open(os.path.join(root, "tools", "design.md")).read()
def rows(d):
    out = []
    p = os.path.join(root, d)
    for n in sorted(os.listdir(p)):
        m = os.path.join(p, n, "meta.json")
        if os.path.isfile(m):
            j = json.load(open(m))
            also = j.get("caught_by", [j["property"]])
            out.append("| %s | %s | %s | %s |" % (n, j["needs"].replace("|", "/"), j["what_it_breaks"].replace("|", "/"), ", ".join(also)))
    return out
head = "| change | needs | what happens | caught by |\n|---|---|---|---|\n"
text = text.replace("@SEEDED@", head + "\n".join(rows("seeded")))
text = text.replace("@EXTRA@", head + "\n".join(rows("extra_bugs")))
open(os.path.join(root, "DESIGN.md"), "w").write(text)
