#!/usr/bin/env python3
"""gen.py: writes /verif/properties.jsonl and /verif/MANIFEST.json from tools/props/*.json (one file per property)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props, checks, na = [], [], []
for f in sorted(os.listdir(V + "/tools/props")):
    d = json.load(open(V + "/tools/props/" + f))
    m = d.pop("_manifest")
    props.append(d)
    if "not_applicable" in m:
        na.append({"property": d["id"], "reason": m["not_applicable"]})
    else:
        checks.append({"property": d["id"], "quick_cmd": f"python3 check.py {d['id']} quick",
                       "thorough_cmd": f"python3 check.py {d['id']} thorough",
                       "evidence_file": f"evidence/{d['id']}.json",
                       "technique": m.get("technique", "contract-based deductive verification (function contracts on the Go source, weakest preconditions over go/ssa, discharged by Z3/cvc5) with replay of counterexamples"),
                       "level": m.get("level", "proof"), "level_note": m["level_note"]})
    assert len(d["title"]) <= 80, d["id"]
with open(V + "/properties.jsonl", "w") as fh:
    for d in props:
        fh.write(json.dumps(d) + "\n")
man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
       "notes": "No hooks in /repo: harnesses enter through go's -overlay; 'fix:' commits in /repo repair genuine defects (see KNOWN_FINDINGS.txt)."}
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
