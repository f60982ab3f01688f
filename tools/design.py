#!/usr/bin/env python3
"""Writes DESIGN.md from tools/DESIGN.in.md, known-findings.txt and seeded/*/meta.json."""
import glob, json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(R + "/tools/DESIGN.in.md").read()
rows = []
for l in open(R + "/known-findings.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m: rows.append(f"| {m[1]} | {m[2]} | {m[3]} |")
seeds = []
for d in sorted(glob.glob(R + "/seeded/*/meta.json")):
    m = json.load(open(d))
    seeds.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['needs']} | {m.get('caught_by', m['property'])} |")
def part(n):
    p = R + "/tools/" + n
    return open(p).read().strip() if os.path.exists(p) else ""
t = t.replace("@@FIXED@@", "\n".join(rows)).replace("@@SEEDED@@", "\n".join(seeds)).replace("@@MORE@@", part("design-more.md")).replace("@@LED@@", part("design-led.md"))
open(R + "/DESIGN.md", "w").write(t)
