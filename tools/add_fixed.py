#!/usr/bin/env python3
"""tools/add_fixed.py <property> <commit> <what failed>: records a repaired defect in known_findings.json"""
import sys, json, os
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.json")
d = json.load(open(p))
prop, commit, what = sys.argv[1:4]
d["findings"].append(dict(id=f"F{len(d['findings'])+1}", property=prop, status="fixed", commit=commit, what=f"fixed: property={prop} {commit} {what}"))
json.dump(d, open(p, "w"), indent=1)
