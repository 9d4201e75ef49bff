#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist (run: bin/mkmanifest.py)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
TV = "TLA+/TLC: trace validation of the real code against "
NOTES = {
 "C01": (TV + "SpscFifo, spec-derived call scripts, exhaustive model of the index algorithm",
   "TLC exhausts the abstract channel and the cached-index algorithm for small rings; the real class is driven through every edge of that state graph, through seeded random histories and through scheduled two-task executions, and every recorded call must be a step of the spec. Bounded by the sampled histories; trusts the recorder and TLC."),
 "C02": (TV + "SpscFifo (results), spec-derived scripts covering every edge for capacities 1-4", "As C01; results are checked for every call kind, capacity rounding classes and element sizes sampled."),
 "C03": (TV + "SpscFifo (window contents)", "Window sizes and the values behind every window of the real channel must match the spec after arbitrary offsets; ring sizes, element sizes and huge buffers sampled."),
 "C04": (TV + "SpscFifo with C++11 happens-before race events; exhaustive model of the index algorithm", "The real headers run under a controlled scheduler with vector-clock happens-before (as declared by the memory orders used, so independent of x86); a race event has no transition in the spec. Schedules are random plus bounded DFS."),
 "C05": (TV + "VMem (OS resources, faults) and SpscFifo; exhaustive model of the set-up/undo protocol", "Every single fault, fault pairs and persistent faults of the set-up system calls are injected into the real code; recorded system calls must be steps of VMem and leave nothing held. munmap/close failures are not injected."),
}
try:
    from manifest_notes import NOTES as N2; NOTES.update(N2)
except ImportError: pass
NA = {}
try:
    from manifest_notes import NA as NA2; NA.update(NA2)
except ImportError: pass
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 bin/setup.py", checks=[], not_applicable=[],
  notes="No hooks in /repo: events are recorded at public APIs. One driver: bin/check.py ID TIER. See DESIGN.md.")
for i in ids:
    if i in NOTES:
        t, n = NOTES[i][:2]
        m["checks"].append(dict(property=i, quick_cmd="python3 bin/check.py %s quick" % i, thorough_cmd="python3 bin/check.py %s thorough" % i,
            technique=t, level="model_checking", level_note=n))
    else: m["not_applicable"].append(dict(property=i, reason=NA.get(i, "machinery for this property is still being built")))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
