#!/usr/bin/env python3
"""Rewrites the list of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
out = []
for i in sorted(os.listdir(d + "/seeded")):
    m = json.load(open(f"{d}/seeded/{i}/meta.json"))
    out.append(f"* {i} ({m['property']}): {m['needs']}")
s = open(d + "/DESIGN.md").read()
a, b = "<!-- planted -->\n", "<!-- end planted -->"
i, j = s.index(a) + len(a), s.index(b)
open(d + "/DESIGN.md", "w").write(s[:i] + "\n".join(out) + "\n" + s[j:])
print(len(out))
