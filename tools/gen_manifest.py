#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run it to regenerate the file)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
INPUT = "stateless model checking of the real code: exhaustive enumeration of bounded input spaces against a brute-force reference model"
HIST = "stateless model checking of the real code: exhaustive enumeration of query/operation histories over bounded inputs against a reference model"
SCHED = "stateless model checking of the real code under a controlled random number generator: depth-first exploration of all random outcomes and visit orders"
PROC = "stateless model checking of the real tool: exhaustive enumeration of configurations and run histories in scratch directories"
TECH = {**{f"C{i:02}": INPUT for i in range(1, 40)},
        **{i: HIST for i in ["C04", "C06", "C08", "C17"]},
        **{i: SCHED for i in ["C21", "C22", "C23", "C24"]},
        **{i: PROC for i in ["C28", "C30", "C32", "C33"]},
        "C29": "stateless model checking of the real tool under a controlled scheduler: every completion order of concurrent analyses is forced and checked",
        "C31": "crash-point and write-fault enumeration on the real tool (fault injector at every write, before/within/after), with recovery run",
        "C36": "fault enumeration on the real tools: every truncation point and every single malformation of the listed inputs and existing results"}
LEVEL = {"C31": "fault_enumeration", "C36": "fault_enumeration"}
NOTE = {
 INPUT: "Every member of the stated finite families is executed on the compiled library and compared with an independent brute-force model; beyond the bounds nothing is claimed. Trusts the reference model, rustc and the harness.",
 HIST: "Every history up to the stated depth on every member of the stated families is executed on the compiled library and compared with an independent reference model; beyond the bounds nothing is claimed. Trusts the reference model, rustc and the harness.",
 SCHED: "Every sequence of random outcomes (draws, shuffles, weighted choices) is executed on the unmodified simulation code for every listed parameter; beyond the bounds nothing is claimed. Trusts the replacement of the rand crate, whose choice points offer exactly the outcomes of the original's contract.",
 PROC: "Every listed configuration or history of runs is executed with the real binaries and compared with an independent oracle; beyond the bounds nothing is claimed. Trusts the oracle, the operating system and the driver.",
}
checks = []
for i in ids:
    if i in NA: continue
    t = TECH[i]
    checks.append({"property": i, "quick_cmd": f"bash run.sh {i} quick", "thorough_cmd": f"bash run.sh {i} thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": t, "level": LEVEL.get(i, "model_checking"),
                   "level_note": NOTE.get(t, "Every completion order, crash point or failing write within the stated bounds is forced on the real binary; finer-grained thread interleavings inside the tool's dependencies are not controlled. Trusts the operating system, the preloaded shim and the driver.")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
     "not_applicable": [{"property": i, "reason": r} for i, r in sorted(NA.items())],
     "notes": "No hooks in /repo: only public API and compiled tools are driven. Findings and repairs: known_findings.json, DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(NA), "not applicable")
