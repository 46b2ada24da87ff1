#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(root + "/properties.jsonl")]
LIB = ("explicit-state enumeration of inputs and call sequences on the real library, against an independent executable model",
       "Every state of the bounded space in the evidence file is executed on the real code and compared with the model; nothing is sampled. "
       "Values outside the enumerated alphabets are covered only as far as the code treats them alike. Trusts Go's crypto primitives; Argon2 is "
       "idealised (binds all inputs) except in the fixed vectors of C05.")
T = {i: LIB for i in ["C%02d" % n for n in (1,2,3,4,5,6,7,8,9,10,11,12,13,14,16,17,18)]}
CLI = ("exhaustive exploration of option, input and key sequences of the real command-line binary, against an independent executable model",
       "Every run of the bounded space in the evidence file is executed with the binary built from the working tree and compared with the model; nothing "
       "is sampled. Argon2 is idealised. Terminals are real pseudoterminals.")
TRACE = ("stateless model checking of the real binary under a controlled scheduler and fault injector (ptrace): all schedules, kill points and failing system calls of the stated sessions",
       "Every schedule and fault of the bounded space in the evidence file is executed on the real binary, which the tracer holds at the chosen system calls. "
       "Scheduling is controlled at system calls, not at memory accesses (those are C15's). Argon2 is idealised.")
for i in ("C19", "C20", "C21", "C22", "C23", "C27"): T[i] = CLI
for i in ("C24", "C25", "C26", "C28"): T[i] = TRACE
T["C15"] = ("stateless model checking of the library under a controlled scheduler: every library statement is a scheduling point (source overlay at build time), all schedules with a bounded number of preemptions of all pairs of calls are run on the real code, with happens-before race detection in each",
       "Preemptions are at statement boundaries of the library's own code, at most 1 (thorough: 2); what is finer is left to the race detector, which sees every explored schedule and does not see the scheduler's own hand-over. Argon2 is idealised.")
#MORE
m = {"version": 1, "setup_cmd": "bash run.sh setup", "checks": [], "not_applicable": []}
for i in ids:
    if i in T:
        t = T[i]
        m["checks"].append({"property": i, "quick_cmd": f"bash run.sh {i} quick", "thorough_cmd": f"bash run.sh {i} thorough",
                            "technique": t[0], "level": t[2] if len(t) > 2 else "model_checking", "level_note": t[1]})
    else:
        m["not_applicable"].append({"property": i, "reason": "the check for this property is still being built"})
m["notes"] = "No hooks in /repo: the checks use the exported API, the real command-line binary and build-time copies."
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
