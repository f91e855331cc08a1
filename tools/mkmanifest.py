#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/props.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
spec = json.load(open(f"{V}/tools/props.json"))
TECH = {"cpp": "property-based testing in C++ (own engine: recorded choices, shrinking, forked workers) against the library built "
               "from /repo with AddressSanitizer and checked containers",
        "py": "property-based testing in Python (Hypothesis) against the pylibamazed package and the C++ library built from /repo"}
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in spec:
        na.append({"property": i, "reason": "no check written yet"})
        continue
    checks.append({"property": i, "quick_cmd": f"python3 tools/check.py {i} quick",
                   "thorough_cmd": f"python3 tools/check.py {i} thorough",
                   "evidence_file": f"evidence/{i}.json",
                   "technique": "; ".join(TECH[e] for e in spec[i]["engines"]) + ". " + spec[i].get("oracle", ""),
                   "level": "exploration",
                   "level_note": spec[i].get("level_note", "generated-input search with explicit oracles; no exhaustiveness claimed")})
m = {"version": 1, "setup_cmd": "python3 tools/vbuild.py all", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the checks use the public interfaces of the library. Replay a violation with "
              "'python3 tools/check.py --replay FILE'."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
