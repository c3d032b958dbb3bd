#!/usr/bin/env python3
"""Regenerates the per-property and per-seed tables of DESIGN.md between their markers."""
import importlib
import json
import os
import re
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True

DEFAULT = "runtime monitoring: offline oracle over outputs of real runs vs independent reference model"
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
fixed = {}
for l in open(os.path.join(V, "known_findings.txt")):
    m = re.match(r"fixed: property=(C\d+) (\w+) (.*)", l)
    if m:
        fixed.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
out = []
for p in props:
    pid = p["id"]
    m = importlib.import_module("props." + pid.lower())
    out.append("### %s %s\n" % (pid, p["title"]))
    out.append("*Level*: %s. *Technique*: %s.\n" % (m.LEVEL, getattr(m, "TECHNIQUE", DEFAULT)))
    out.append("*Workload, oracle, non-triviality*: %s\n" % m.RULE)
    out.append("*Bounds and assumptions*: %s.\n" % "; ".join(m.ASSUMPTIONS))
    if p.get("why_tests_cant"):
        out.append("*Reach beyond the tests*: %s\n" % p["why_tests_cant"])
    if fixed.get(pid):
        out.append("*Defects found by it and repaired*: %s.\n" % "; ".join("`%s` %s" % x for x in fixed[pid]))
seeds = ["| id | property | what it breaks | needs | caught by its check |", "|---|---|---|---|---|"]
sd = os.path.join(V, "seeded")
res = {}
rp = os.path.join(V, "tools", "seeded_results.json")
if os.path.exists(rp):
    res = json.load(open(rp))
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, d, "meta.json")))
    e = lambda s: s.replace("|", "\\|").replace("\n", " ")
    seeds.append("| %s | %s | %s | %s | %s |" % (d, m["property"], e(m["what_it_breaks"]), e(m["needs"]), e(str(res.get(d, "?")))))
f = os.path.join(V, "DESIGN.md")
t = open(f).read()
for name, body in (("PROPS", "\n".join(out)), ("SEEDS", "\n".join(seeds) + "\n")):
    a, b = "<!-- %s -->\n" % name, "<!-- /%s -->" % name
    i, j = t.index(a) + len(a), t.index(b)
    t = t[:i] + body + t[j:]
open(f, "w").write(t)
