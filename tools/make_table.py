#!/usr/bin/env python3
"""make_table.py: rewrites section 7 of DESIGN.md (the planted bugs) from seeded/*/meta.json and the list of those first missed."""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = json.load(open(os.path.join(ROOT, "tools/first_missed.json")))
by = {}
for d in sorted(os.listdir(ROOT + "/seeded")):
    by.setdefault(json.load(open(f"{ROOT}/seeded/{d}/meta.json"))["property"], []).append(d)
head = "## 7. Planted bugs, and which check catches which"
lines = [head, "", f"{sum(map(len, by.values()))} changes are kept in `seeded/`; each breaks the property named and is caught by that property's own quick check",
         "(`tools/sweep.py`; `-a` runs every check on each). Those marked * were missed when they were first planted; below the list is what was",
         "added for them. What was added is always a wider space or a wider observation, never the planted input itself.", ""]
for p, ids in sorted(by.items()):
    lines.append(f"* {p}: " + ", ".join(i.split("-", 1)[1] + ("*" if i in MISSED else "") for i in ids))
unknown = set(MISSED) - {i for ids in by.values() for i in ids}
assert not unknown, unknown
lines.append("")
groups = {}
for i, why in MISSED.items():
    groups.setdefault(why, []).append(i)
for why, ids in groups.items():
    lines.append(f"* {', '.join(ids)}: {why}")
p = ROOT + "/DESIGN.md"
s = open(p).read()
body = "\n".join(lines) + "\n"
i = s.find(head)
if i < 0:
    s = s.rstrip() + "\n\n" + body
else:
    m = re.search(r"\n## ", s[i + 4:])
    s = s[:i] + body + ("" if not m else s[i + 4 + m.start():])
open(p, "w").write(s)
