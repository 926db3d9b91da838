#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property of properties.jsonl that `vh list` knows is claimed."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
have = subprocess.run([f"{V}/target/release/vh", "list"], capture_output=True, text=True).stdout.split()
FAULT = {"C11", "C18", "C25"}
T = json.load(open(f"{V}/tools/notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        t = T[i]
        checks.append({"property": i, "quick_cmd": f"./run.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {i}",
                       "technique": t[0], "level": "fault_enumeration" if i in FAULT else "exploration", "level_note": t[1]})
    else:
        na.append({"property": i, "reason": "the check of this property is not built yet"})
m = {"version": 1, "setup_cmd": "./run.sh build",
     "hooks": {"guard": "cfg(verif_hooks)", "enable": "RUSTFLAGS=\"--cfg verif_hooks\" (set by run.sh; the harness has a path dependency on /repo's crates)",
               "source_commits": ["5c5213c"]},
     "checks": checks, "not_applicable": na,
     "notes": "Property-based testing with generated histories, faults and schedules against reference models (harness/). VIOLATION lines name a shrunk replay file; run it with target/release/vh replay FILE."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
