#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and harness/jobs.txt."""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open('properties.jsonl') if l.strip()]
claimed = {l.split()[0] for l in open('harness/jobs.txt') if l.strip() and l[0] != '#'}
notes = json.load(open('level_notes.json')) if os.path.exists('level_notes.json') else {}
checks, na = [], []
for p in props:
    i = p['id']
    if i in claimed:
        checks.append({
            "property": i,
            "quick_cmd": f"bash check.sh {i} quick",
            "thorough_cmd": f"bash check.sh {i} thorough",
            "technique": "symbolic execution of the Go SSA of /repo with z3 deciding every branch and assertion (field and group values as exact polynomials); counterexamples replayed natively",
            "level": "model_checking",
            "level_note": notes.get(i, "Bounded: every value within the sizes listed in harness/jobs.txt; go-ristretto, bn256, big.Int and the hash functions are modelled (DESIGN.md)."),
        })
    else:
        na.append({"property": i, "reason": "not yet decided by a check"})
json.dump({"version": 1, "setup_cmd": "bash engine/build.sh", "checks": checks, "not_applicable": na}, open('MANIFEST.json', 'w'), indent=1)
print(len(checks), "checks", len(na), "not applicable")
