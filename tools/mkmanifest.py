#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks/."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/lib", V + "/checks"]
sys.dont_write_bytecode = True
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)["id"]
    if os.path.exists(V + "/checks/%s.py" % p):
        C = importlib.import_module(p).Check("quick", 1)
        os.rmdir(C.tmp)
        checks.append({
            "property": p,
            "quick_cmd": "python3 check.py %s quick" % p,
            "thorough_cmd": "python3 check.py %s thorough" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": getattr(C, "technique", "TLA+ specification (%s) model-checked with TLC; TLC-generated and random scripts replayed on the real code, recorded traces validated against the specification by TLC" % ", ".join(dict.fromkeys(["%s.tla" % x for x in [m[0] for m in C.mc] + [C.trace]]))),
            "level": C.level,
            "level_note": C.level_note})
    else:
        na.append({"property": p, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "Known findings: known-findings.txt. See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
