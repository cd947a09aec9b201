#!/opt/veriftools/pyvenv/bin/python3
"""Writes MANIFEST.json from vf/checks.py (which checks exist) and vf/meta.py (how each decides)."""
import sys, os, json, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.dont_write_bytecode = True
from vf import checks, meta
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="bin/setup",
         hooks=dict(guard="none", enable="no hooks: the checks use only the library's public interface and compiler instrumentation", source_commits=[]),
         checks=[], not_applicable=[], notes=meta.NOTES)
for p in props:
    i = p["id"]
    if i in checks.CHECKS and i in meta.META:
        t, n = meta.META[i]
        m["checks"].append(dict(property=i, quick_cmd=f"bin/check {i} quick", thorough_cmd=f"bin/check {i} thorough",
                                evidence_file=f"evidence/{i}.json", technique=t, level="model_checking", level_note=n))
    else:
        m["not_applicable"].append(dict(property=i, reason=meta.NA.get(i, "no check built yet")))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(m["checks"]), "checks")
