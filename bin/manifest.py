#!/usr/bin/env python3
"""Regenerate MANIFEST.json from the checks present (run by hand)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NOTE = json.load(open(V + "/bin/notes.json"))
m = {"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": [], "not_applicable": [], 
     "notes": "TLA+ specifications in spec/, checked by TLC; drivers in drivers/ replay TLC's behaviours on the real headers and the recorded traces are validated against the specifications (spec/*Trace.tla). No hooks in /repo are needed."}
for p in props:
    i = p["id"]
    if os.path.exists(V + "/checks/%s.py" % i):
        m["checks"].append({"property": i, "quick_cmd": "python3 bin/check.py %s quick" % i, "thorough_cmd": "python3 bin/check.py %s thorough" % i,
                            "technique": NOTE.get(i, {}).get("technique", "TLA+ specification checked with TLC; TLC-generated behaviours replayed on the code; recorded traces validated by TLC"),
                            "level": "model_checking",
                            "level_note": NOTE.get(i, {}).get("note", "Exhaustive on the bounded model; conformance of the code on the replayed behaviours (explored, not proved, beyond them). Trusts TLC, the driver's projection and the compiler."),
                            "evidence_file": "evidence/%s.json" % i})
    else:
        m["not_applicable"].append({"property": i, "reason": NOTE.get(i, {}).get("na", "check under construction")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
