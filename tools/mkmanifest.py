#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and props.py"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
NOTE = ("The TLA+ specification is explored exhaustively within the stated small constants; the implementation is bound to it by "
        "judging every distinct recorded call (pre-state, result, post-state) of spec-generated, exhaustive and seeded random "
        "histories with TLC. Holds on what was executed; not a proof for unbounded containers. Trusts TLC, the compiler and the "
        "driver's reading of the public API.")
checks, na = [], []
for i in ids:
    if i in props.PROPS:
        p = props.PROPS[i]
        c = {"property": i, "quick_cmd": "python3 tools/check.py %s quick" % i,
             "thorough_cmd": "python3 tools/check.py %s thorough" % i,
             "evidence_file": "evidence/%s.json" % i,
             "technique": "TLA+ specification (spec/%s.tla) explored with TLC; conformance of recorded calls of the real code judged by TLC (spec/%s.tla)" % (p["conf"].replace("Conf", ""), p["conf"]),
             "level": "model_checking", "level_note": p.get("note", NOTE)}
        checks.append(c)
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks: all observation is through the public API. Known findings and repairs: known_findings.txt."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
