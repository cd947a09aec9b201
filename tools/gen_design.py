#!/usr/bin/env python3
"""writes DESIGN.md from doc/, vf/meta.py, properties.jsonl, known_findings.json and tools/seed_results.tsv"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.dont_write_bytecode = True
from vf import meta
rd = lambda p: open(os.path.join(V, p)).read()
o = rd("doc/design_head.md") + "\n## 4. Properties: what decides them, bounds, oracle\n\n"
o += ("The oracle is always the specification's observation for the step. 'Exhaustively' means every transition of the named "
      "instance is executed on the real code. What tests cannot reach is in each property's `why_tests_cant`. Cost: quick time measured on 8 cores.\n\n")
cost = dict(l.split() for l in rd("doc/cost.txt").split("\n") if l.strip())
for l in rd("properties.jsonl").splitlines():
    p = json.loads(l)
    o += f"### {p['id']} {p['title']}\n{p['statement']}\n\n*Decided by*: {meta.META[p['id']][1]}\n\n*Beyond the tests*: {p['why_tests_cant']} *Cost*: {cost.get(p['id'], '?')} s.\n\n"
o += "## 5. Genuine defects found and repaired in /repo\n\nEach is a commit `fix: ...`; the check reports it again if it returns.\n\n| id | property | commit | what failed |\n|---|---|---|---|\n"
for f in json.loads(rd("known_findings.json"))["findings"]:
    if f["status"] == "fixed":
        o += f"| {f['id']} | {f['property']} | {f['commit']} | {f['what'].split(f['commit'], 1)[-1].strip()} |\n"
o += ("\n## 6. Planted bugs (seeded/)\n\nEach was written from the property and the code, confirmed with `tools/seed.sh` (demonstration passes without, fails "
      "with the change; the 48 stable tests pass with it), and run against the property's quick check. 'After strengthening' names what was added because the check missed it at first.\n\n"
      "| bug | property | what it breaks | needs | caught by (first report) |\n|---|---|---|---|---|\n")
res = dict(l.split("\t", 1) for l in rd("tools/seed_results.tsv").splitlines() if "\t" in l)
for s in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.loads(rd(f"seeded/{s}/meta.json"))
    o += f"| {s} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {res.get(s, '?').replace('|', '/')} |\n"
o += "\n" + rd("doc/design_tail.md")
open(os.path.join(V, "DESIGN.md"), "w").write(o)
