#!/usr/bin/env python3
"""Rewrites DESIGN.md's list of repaired defects from known_findings.json."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(R, "DESIGN.md")
s = open(p).read()
fx = json.load(open(os.path.join(R, "known_findings.json")))["fixed"]
out = ""
for x in fx:
    m = re.match(r"fixed: property=(C\d+) (\w+) (.*)", x)
    out += f"* {m[1]}: `{m[2]}` {m[3]}\n"
i = s.index("## Defects found and repaired")
j = s.find("\n## ", i + 5)
s = s[:i] + "## Defects found and repaired\n\n" + out + (s[j:] if j > 0 else "")
open(p, "w").write(s)
