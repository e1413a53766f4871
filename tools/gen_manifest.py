#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {

 "C17": "A question about which programs the type system accepts, not about an execution; a simulated run that obeys it shows nothing about the programs that do not.",
 "C18": "Decided at compile time (auto traits and derive errors); no execution to simulate.",
}
NOTE = {
 "default": "Seeded search over client schedules, allocator behaviours and faults against a reference model; every run is exactly repeatable from its seed. Bounded by the search time, not exhaustive. Trusts the models and observers in /verif/harness.",
 "C10": "Seeded search with a simulated allocator that checks its own contract (size, alignment, layout, double release), canaries and poison around and inside freed blocks, guard pages and reference alignment. Reads of uninitialised or stale library-owned memory show only through their effects (see C15).",
 "C12": "At seeded points of seeded histories the n-th allocation request of the next operation fails (once or from then on) in a forked copy of the process, whose outcome is then examined. Which points and requests is sampled, not exhaustive.",
 "C15": "Each history is executed twice, in two environments that differ in allocator policy, fresh memory contents and operations on other stores, and the complete observation logs are compared.",
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"python3 check.py {i} quick",
        "thorough_cmd": f"python3 check.py {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "deterministic simulation with fault injection: seeded search over client schedules, allocator behaviours and faults, against reference models",
        "level": "exploration",
        "level_note": NOTE.get(i, NOTE["default"]),
    })
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --build",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: the seams are the public API and the global allocator, which the harness binary supplies. Replay files: python3 check.py --replay FILE.",
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
