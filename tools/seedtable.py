#!/usr/bin/env python3
"""Rewrites DESIGN.md's list of planted bugs from seeded/*/meta.json."""
import glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in glob.glob(H + "/seeded/*/meta.json"):
    d = json.load(open(f))
    rows.append((d["property"], os.path.basename(os.path.dirname(f)), d["needs"], d["what_it_breaks"]))
t = "".join("* %s `%s`: %s; needs: %s\n" % (p, i, b, n) for p, i, n, b in sorted(rows))
s = open(H + "/DESIGN.md").read()
s = re.sub(r"(?s)<!--seeds-->.*?<!--/seeds-->", lambda m: "<!--seeds-->\n" + t + "<!--/seeds-->", s)
open(H + "/DESIGN.md", "w").write(s)
