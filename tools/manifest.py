#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl (run by hand after changing the set of checks)."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(here)
NA = {
}
NOTE = {
}
impl = subprocess.run(["sim/target/release/mpsim", "list"], capture_output=True, text=True).stdout.split()
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
checks, na = [], []
for i in ids:
    if i in impl:
        checks.append({
            "property": i,
            "quick_cmd": f"./check {i}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": "deterministic simulation with fault injection: seeded search over schedules, segmentations and fault sequences, checked against a reference model; violations minimised to a replayable choice tape",
            "level": "exploration",
            "level_note": NOTE.get(i, "Seeded random search over simulated executions of the real code with every source of nondeterminism under the simulator's control; it finds violations with high probability within the explored distribution and proves nothing beyond the explored runs. Trusts the simulator's own seams and the reference model in /verif/sim."),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check yet")})
json.dump({
    "version": 1,
    "setup_cmd": "./check build",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks were needed in /repo: every seam is either a trait of the crate (Read, Write, HttpRequest, HttpStream, NetworkStream) or is interposed at the C library boundary (file system, clock, randomness) inside the simulator's own process.",
}, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
