#!/usr/bin/env python3
"""merge_evidence.py ID EVIDENCE_DIR PARTS_DIR: one evidence file out of those
which the parts of a check wrote."""
import glob, json, os, sys
pid, out, parts = sys.argv[1:4]
ds = [(os.path.basename(os.path.dirname(f)), json.load(open(f))) for f in sorted(glob.glob(os.path.join(parts, "*", pid + ".json")), key=os.path.getmtime)]
if not ds: sys.exit("no evidence")
r = ds[0][1]
c = r["coverage"]
if len(ds) > 1:
    c["rule"] = "  ".join("(%s) %s" % (n, d["coverage"]["rule"]) for n, d in ds)
    c["per_part"] = {n: {k: d["coverage"][k] for k in ("states", "transitions", "traces_validated_against_impl", "units_completed")} for n, d in ds}
for n, d in ds[1:]:
    e = d["coverage"]
    for k in ("states", "transitions", "traces_validated_against_impl", "units_total", "units_completed"): c[k] += e[k]
    for k in ("exhaustive",): c[k] = c[k] and e[k]
    for k in ("states_count_capped", "stopped_by_time_cap"): c[k] = c[k] or e[k]
    for k in ("outcomes", "executions_per_suite"):
        for x, v in e[k].items(): c[k][x] = c[k].get(x, 0) + v
    c["samples"] += e["samples"]
    r["wall_s"] += d["wall_s"]
    r["violations"] += d["violations"]
json.dump(r, open(os.path.join(out, pid + ".json"), "w"), indent=1)
