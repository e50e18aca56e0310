#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the property modules that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(line) for line in open(os.path.join(HERE, "properties.jsonl"))]
TECH = {
    "C": "deterministic simulation: the real C kernel on a simulated OpenMP runtime and allocator; seeded search over interleavings, team sizes and failing allocations, checked against a sequential reference model",
    "X": "deterministic simulation: the real fitting code on a simulated process pool; seeded search over worker counts, pick-up/completion orders, worker failures and interruptions, checked against a sequential reference",
    "S": "deterministic simulation: real streaming generators driven by a seeded scheduler that stops, resumes, checkpoints, crashes inside frames and fails deliveries, checked after every frame against a direct reference model",
    "A": "deterministic simulation: caller threads parked at every line of library code and released one at a time by a seeded scheduler; call histories with failing calls, checked against a direct reference model",
    "T": "deterministic simulation: caller threads parked at every line of library code and released one at a time by a seeded scheduler, results compared with the same calls made alone",
    "P": "deterministic simulation: seeded interleaving of several fit set-ups (including failing steps) checked against a per-set-up reference history",
    "R": "deterministic simulation: simulated clock, seeded random streams and failing callbacks around the real reconstruction loop, checked for equality of results",
    "K": "deterministic simulation: seeded histories of dictionary operations with refused and interrupted ones, by callers parked at every line of library code, checked after every step against a flat model",
    "F": "deterministic simulation: real reader/writer code on an interposed file system; seeded short transfers, errors, torn files and process death at chosen system calls, checked against the stored data",
}
NA = ("pure function of its arguments: no schedule, clock, I/O, fault or call history enters it, so simulation has nothing to decide; "
      "(its freedom from cross-talk between callers is covered by T01)")
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "sim", "props", i.lower() + ".py")):
        checks.append({
            "property": i, "quick_cmd": "python3 /verif/check.py %s --tier quick" % i, "thorough_cmd": "python3 /verif/check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i, "technique": TECH[i[0]], "level": "exploration",
            "level_note": "seeded sample of schedules, faults and histories; every failure replays exactly from its file",
        })
    else:
        na.append({"property": i, "reason": NA if i[0] == "N" else "check still under construction"})
m = {"version": 1, "setup_cmd": "python3 /verif/setup.py", "checks": checks, "not_applicable": na,
     "notes": "Every check builds what it needs from /repo's current tree into /verif/.build (content addressed); see DESIGN.md."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
