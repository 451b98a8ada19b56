"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = {}
for l in open(here + "/tools/missed.txt"):
    k, _, v = l.strip().partition(": ")
    if k:
        missed[k] = v
rows = []
for d in ("seeded", "seeded-grammar"):
    for i in sorted(os.listdir(f"{here}/{d}")):
        m = json.load(open(f"{here}/{d}/{i}/meta.json"))
        rows.append((m["property"], i + (" (grammar)" if d != "seeded" else ""), m["needs"].replace("|", "\\|").replace("\n", " "), missed.get(i, "")))
rows.sort()
p = here + "/DESIGN.md"
s = open(p).read()
mark = "<!-- table -->\n"
s = s[: s.index(mark) + len(mark)] if mark in s else s.rstrip("\n") + "\n\n" + mark
s += f"\n{len(rows)} changes, {sum(1 for r in rows if r[3])} of them missed at first.\n\n| caught by | change | shows with | missed at first, until |\n|---|---|---|---|\n"
s += "".join("| " + " | ".join(r) + " |\n" for r in rows)
open(p, "w").write(s)
print(len(rows))
