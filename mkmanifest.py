#!/usr/bin/env python3
"""Regenerates MANIFEST.json from checks.py and properties.jsonl."""
import json, os
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open("properties.jsonl") if l.strip()]
m = dict(version=1, setup_cmd="python3 check.py --setup",
         checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                                evidence_file="evidence/%s.json" % i, technique="property-based testing: " + c.get("technique", "generated inputs against a reference model"),
                                level="exploration",
                                level_note=c.get("note", "Held on every generated case; no claim about cases not generated.") +
                                " Trusts clang 18 with its address and undefined behaviour sanitizers and the reference model in props/" + c["src"] + "."))
    else:
        m["not_applicable"].append(dict(property=i, reason=NOT_APPLICABLE.get(i, "no check built yet")))
m["notes"] = "No hooks: the checks compile /repo's sources unmodified. Genuine defects found are fixed in /repo (fix: commits) or listed in KNOWN_FINDINGS.txt; see DESIGN.md."
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
