#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHIP = " Repeated in a build without debug assertions and overflow checks."
T = {
 "C03": ("model_checking", "exhaustive enumeration of byte and token strings, lockstep with a reference parser",
         "All byte strings over a structural alphabet and all token sequences up to the stated lengths, in 12 modes; trusts the reference parser in mc/src/wire.rs."),
 "C04": ("model_checking", "exhaustive enumeration of integer encodings and values against exact arithmetic",
         "All encodings built from a digit alphabet to the stated length and all boundary values; trusts 128-bit reference arithmetic." + SHIP),
 "C14": ("model_checking", "exhaustive enumeration of navigation operation sequences, lockstep with an explicit stream model",
         "All operation sequences to the stated depth on a fixed set of documents and sources."),
 "C15": ("model_checking", "exhaustive enumeration of writer call sequences, lockstep with a model of the output",
         "All call sequences to the stated depth; sink bytes, positions and errors compared after each call." + SHIP),
 "C16": ("model_checking", "exhaustive enumeration of blob operation sequences, lockstep with a bounded-file model",
         "All operation sequences to the stated depth on a fixed set of blobs and sources; whole source content compared after each operation."),
 "C17": ("model_checking", "exhaustive enumeration of documents and blob treatments copied between real streams, against a reference re-encoding",
         "All token sequences to the stated length; trusts the reference parser."),
 "C19": ("model_checking", "exhaustive enumeration of extreme positions, lengths and operation sequences on a virtual sparse device",
         "All combinations of the listed boundary positions, lengths, data ends and operation sequences, against 128-bit arithmetic." + SHIP),
}
T.update(json.load(open(os.path.join(root, "tools", "more_checks.json"))) if os.path.exists(os.path.join(root, "tools", "more_checks.json")) else {})
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo are needed: everything is driven through the public API. Commits in /repo are repairs only (fix:)."}
for i in ids:
    if i in T:
        lv, tech, note = T[i]
        m["checks"].append({"property": i, "quick_cmd": "bash check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + i,
                            "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": lv, "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": "check under construction; not claimed yet"})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
