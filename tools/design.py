#!/usr/bin/env python3
"""Puts DESIGN.md together: the text and the table of planted bugs (from tools/seeded.log)."""
import json, os, re
H = os.path.dirname(os.path.abspath(__file__)); R = os.path.dirname(H)
res = {}
for l in open(os.path.join(H, "seeded.log"), errors="replace"):
    m = re.match(r"(\S+) (C\d\d) rc=(\d+) \d+ \d+s\s*(.*)", l)
    if m:
        res[m.group(1)] = (m.group(3), m.group(4))
out = open(os.path.join(H, "design_head.md")).read()
out += "\n| planted bug | needs | caught | by |\n|---|---|---|---|\n"
n = c = 0
for d in sorted(os.listdir(os.path.join(R, "seeded"))):
    m = json.load(open(os.path.join(R, "seeded", d, "meta.json")))
    rc, text = res.get(d, ("?", ""))
    n += 1; c += rc == "1"
    phase = text.split(": ")[0].strip()[:60] if rc == "1" else ""
    esc = lambda s: s.replace("|", "\\|").replace("\n", " ")
    out += f"| {d} | {esc(m['needs'])[:160]} | {'yes' if rc == '1' else 'no' if rc == '0' else '?'} | {esc(phase)} |\n"
out += f"\n{c} of {n} caught.\n"
open(os.path.join(R, "DESIGN.md"), "w").write(out)
print(c, "of", n)
