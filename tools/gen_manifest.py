#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cfg = json.load(open(os.path.join(V, "checks.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {
 "C20": "a pure function of two strings: no schedule, clock, I/O, fault or history for a simulator to decide; its law is settled by proof or enumeration, not by simulation",
}
checks, na = [], []
for p in props:
    i = p["id"]
    c = cfg["checks"].get(i)
    if c:
        checks.append({"property": i, "quick_cmd": "./check %s --tier quick" % i, "thorough_cmd": "./check %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "deterministic simulation with fault injection: seeded search over " + c["search"],
            "level": "exploration", "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "its check is still being built")})
m = {"version": 1, "setup_cmd": "./check --build", "checks": checks, "not_applicable": na,
 "notes": "No hooks in /repo: the checks instrument a copy of its sources, the Go standard library's system call gate and clock, and golang.org/x/sys at build time through go build -overlay (sim/cmd/mkoverlay), so the shipped build is unchanged."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
