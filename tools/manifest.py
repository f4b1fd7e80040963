#!/usr/bin/env python3
"""Writes MANIFEST.json from spec.py and the properties list."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from spec import CHECKS
from properties import L
NA = {
    "C40": "pure functions of their arguments: no schedule, clock, fault or interleaving for a simulation to vary (what concurrency and memory failures can do to them is C24 and C33)",
    "C41": "pure functions of their arguments: no schedule, clock, fault or interleaving for a simulation to vary (concurrent and failing conversions are C33)",
    "C42": "pure function of argv and environment: what depends on faults (malformed environment, memory) is claimed as C34, the conversion rules themselves are input generation",
    "C43": "value types without state, time, I/O or concurrency",
    "C44": "compile-time and pure numeric helpers without state, time, I/O or concurrency",
}
ORACLE = {
    "C01": "linearizability search against a sequential bounded FIFO",
    "C02": "bounded liveness at quiescence", "C03": "linearizability search with injected copy and allocation failures",
    "C08": "linearizability search against a handler registry", "C14": "linearizability search and executable schedule model",
    "C20": "linearizability search with notification history", "C21": "linearizability search with throwing callbacks and copies",
    "C29": "reference model map with injected allocation failures", "C31": "happens-before race detection and end-to-end conservation",
}
checks = []
ids = {x["id"]: x for x in L}
for c in sorted(CHECKS):
    o = ORACLE.get(c, "invariants during the run and checks of the recorded history")
    checks.append({
        "property": c,
        "quick_cmd": f"python3 tools/check.py {c}",
        "thorough_cmd": f"python3 tools/check.py {c} --tier thorough",
        "evidence_file": f"evidence/{c}.json",
        "technique": f"deterministic simulation with fault injection: seeded schedules and faults over the real library code; {o}",
        "level": "exploration",
        "level_note": "Seeded search over schedules, faults and generated programs of bounded size; a clean run is evidence, not proof. Trusts the simulator (fiber scheduler, "
                      "interposed pthread, clock, signal and heap calls), g++ instrumentation and the scenario's oracle; interleavings are sequentially consistent (data races are "
                      "reported by a happens-before detector); libstdc++.so internals are not instrumented. Violations are confirmed in a fresh process, minimised and replayed exactly.",
    })
m = {"version": 1, "setup_cmd": "python3 tools/check.py --setup", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks in /repo: the simulator takes the C and C++ runtime's entry points (pthread, clocks, sleeps, signals, heap, random device) as its seams and compiles the "
              "library's sources with instrumentation of memory accesses and basic blocks. Commits in /repo are repairs only (see known-findings.txt)."}
assert set(ids) == set(CHECKS) | set(NA), set(ids) ^ (set(CHECKS) | set(NA))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks))
