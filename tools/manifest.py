#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the list of properties
that have checks (harness/props)."""
import json, os, re, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
have = set()
for f in glob.glob(os.path.join(here, "harness/props/*.go")):
    have |= set(re.findall(r'engine\.Add\(\s*"([A-Z][0-9]+)"', open(f).read()))
NA = {}  # id -> reason
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        tech = "property-based testing: rapid generators, explicit reference oracle, shrinking to a replay file"
        note = "Generated-input search; sample-based, deterministic for a fixed VERIF_SEED. Bounds are in DESIGN.md."
        if i == "C11":
            tech = "property-based testing under the race detector: generated programs and read operations, compared with a sequential run"
            note += " Goroutine interleavings are those the Go scheduler produces, not enumerated."
        if i in ("C41", "C42"):
            tech = "property-based testing of the built command in a scratch directory, against a reference oracle"
        checks.append({
            "property": i,
            "quick_cmd": "bash check.sh " + i,
            "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": tech,
            "level": "exploration",
            "level_note": note,
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "bash check.sh --build", "checks": checks, "not_applicable": na,
     "notes": "All checks are generated-input search against explicit oracles; see DESIGN.md. No hooks are needed in /repo."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na], "without")
