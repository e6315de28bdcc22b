#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, "tools", "notes.json")))
NA = NOTES.pop("not_applicable", {})
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i + ".py")) and i not in NA:
        n = NOTES.get(i, {})
        checks.append(dict(property=i, quick_cmd="python3 tools/check.py " + i,
                           thorough_cmd="VERIF_TIER=thorough python3 tools/check.py " + i,
                           evidence_file="evidence/%s.json" % i,
                           technique=n.get("technique", "TLA+ specification; TLC validates traces recorded from the real code against it"),
                           level="model_checking",
                           level_note=n.get("note", "Every record of the real code explored is decided by the specification (TLC); bounded by the inputs enumerated and sampled. Trusts TLC, the Java real arithmetic of FReal and the driver's recording.")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "the check of this property is not built yet")))
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
               notes="No hooks in /repo: drivers in harness/ are compiled with /repo's sources."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
