#!/usr/bin/env python3
"""DESIGN.md's table of planted bugs: python3 tools/mkcaught.py (reads tools/caught.json, kept by runseeds.py)"""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(R, "DESIGN.md")
s = open(p).read()
c = json.load(open(os.path.join(R, "tools", "caught.json")))
out = "## Planted bugs and what catches them\n\n| planted bug | breaks | needs | caught by |\n|---|---|---|---|\n"
for d in sorted(os.listdir(os.path.join(R, "seeded"))):
    f = os.path.join(R, "seeded", d, "meta.json")
    if os.path.exists(f):
        m = json.load(open(f))
        out += f"| `{d}` | {m['what_it_breaks'].replace('|', '/')} | {m['needs'].replace('|', '/')} | {c.get(d, 'not run')} |\n"
h = "## Planted bugs and what catches them"
if h in s:
    i = s.index(h)
    j = s.find("\n## ", i + 5)
    s = s[:i] + out + (s[j:] if j > 0 else "")
else:
    i = s.index("## Defects found and repaired")
    s = s[:i] + out + "\n" + s[i:]
open(p, "w").write(s)
