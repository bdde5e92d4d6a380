#!/usr/bin/env python3
"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for n in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(root + "/seeded/%s/meta.json" % n)); rows.append("| %s | %s | %s |" % (n, m["property"], m["needs"].replace("|", "/")))
f = root + "/DESIGN.md"; s = open(f).read()
s = re.sub(r"(?s)(\| planted bug \| caught by \| needs \|\n\|---\|---\|---\|\n).*?\n\n", lambda m: m.group(1) + "\n".join(rows) + "\n\n", s)
open(f, "w").write(s)
