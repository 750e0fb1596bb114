#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
T = "deterministic simulation with fault injection: seeded search over programs, search orders, thread schedules and faults, each run judged against an exact reference model; violations are minimised and replayed"
NOTE = {
    "C01": "every reported value of every explored run is substituted into the constraints active in its model with exact rational arithmetic; sound for the runs explored, no claim beyond them",
    "C02": "the reported set of answers of every explored run is compared with an enumeration of all Boolean candidates by an independent exact simplex; limited to programs small enough to enumerate",
    "C03": "every clause handed to the solver is refuted or confirmed by the independent exact simplex over all completions of open conditions; clauses over more than seven open conditions are skipped (counted)",
    "C04": "every reported optimum and unboundedness verdict is compared with the independent exact simplex",
    "C05": "complete searches are compared with the best of all answers of the reference model; the order of improving models is checked in single-threaded runs",
    "C06": "at every decision and every total check the acceptance of the theory is compared with joint feasibility of the true constraints, after arbitrary backjumps, restarts and deferred conflicts of the real solver; rejections are covered by the entailment of clauses",
    "C07": "every call of a multi-shot history is judged against the reference model of the accumulated program under its externals and assumptions",
    "C08": "threads run one at a time under a seeded scheduler with preemption at every memory access of the theory; answers are judged as in sequential runs and a vector-clock race detector watches all memory of the theory; clause exchange inside clingo runs as is",
    "C09": "a budget of memory accesses per callback and of callbacks per search, deadlock detection, and systems on which careless pivoting rules cycle; a bound by budget, not a proof of termination",
    "C10": "the index interface is walked at every model by the thread reporting it and compared with the attached symbols and earlier indices",
    "C11": "allocations and host calls fail at seeded points in every entry point and callback; checked: no crash, no hang, error reported, no wrong answer before or after; memory released is not counted",
    "C12": "all option settings are drawn independently and judged against the same reference model",
    "C13": "interrupts, cancellations and limits at seeded points; later calls are judged against the reference model",
    "C14": "statistics of every call are compared with pivots and bound clauses counted at the boundary and summed over steps; each violation-free run is a deterministic function of its seed",
    "C15": "main() of the tool runs under the simulator, its output and exit code are compared with what the library reported",
    "C21": "up to three controls with theories of their own run in threads of one process under the seeded scheduler; each is judged against its own reference model, and the race detector reports memory (also static) that two of them use",
}
NA = {
    "C16": "a pure function of the program text: no schedule, clock, I/O or fault for the simulation to vary (generated terms still exercise it inside the claimed properties)",
    "C17": "pure arithmetic without schedule, time, I/O or faults (indirectly exercised: every oracle recomputes with its own arithmetic)",
    "C18": "parsing of option strings is a pure function; nothing to schedule or to fail (all documented values are used by the generator)",
    "C19": "the alternative number backend (imath) needs its library vendored as a submodule that is not present offline; and it is again pure arithmetic",
    "C20": "the Python binding is a thin forwarding layer without concurrency, time or I/O of its own; a simulation of the interpreter would decide nothing beyond the C interface",
}
m = {"version": 1, "setup_cmd": "./check.py --build",
     "checks": [{"property": p, "quick_cmd": "./check.py " + p, "thorough_cmd": "./check.py " + p, "evidence_file": "evidence/%s.json" % p, "technique": T, "level": "exploration", "level_note": n} for p, n in NOTE.items()],
     "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
     "notes": "The simulator intercepts libraries at link time and needs no hooks in /repo. Replay a violation with ./check.py --replay FILE. known-findings.txt lists repaired defects."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
