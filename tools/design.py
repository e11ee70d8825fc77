#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, design_tail.md, known_findings.txt and seeded/."""
import json, os, re
T = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(T)
fixes = []
for l in open(V + "/known_findings.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m: fixes.append("| %s | %s | %s |" % m.groups())
seeds = []
for s in sorted(os.listdir(V + "/seeded")):
    j = json.load(open("%s/seeded/%s/meta.json" % (V, s)))
    seeds.append("| %s | %s |" % (s, " ".join(str(j["needs"]).split()).replace("|", "/")))
t = open(T + "/design_head.md").read() + "\n" + open(T + "/design_tail.md").read()
t = t.replace("@FIXES@", "\n".join(fixes)).replace("@NSEEDS@", str(len(seeds))).replace("@SEEDS@", "\n".join(seeds))
open(V + "/DESIGN.md", "w").write(t)
