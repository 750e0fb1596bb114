#!/usr/bin/env python3
"""Decides one property: builds the simulator from the current tree and searches seeded runs for violations.

usage: check.py PROPERTY        (environment: VERIF_SEED, VERIF_TIER)
       check.py --build         (builds only)
       check.py --replay FILE   (replays a violation, with its trace)
"""
import hashlib
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")

# property -> profile -> share of the search effort
PLAN = {
    "C01": {"single": 3, "objective": 2, "multi": 3, "threads": 1, "big": 1, "large": 1},
    "C02": {"single": 4, "big": 1, "multi": 3, "stop": 1, "threads": 1, "large": 1, "large-multi": 1},
    "C03": {"single": 3, "objective": 2, "global": 2, "multi": 3, "big": 1, "threads": 2, "large": 1},
    "C04": {"objective": 4, "multi": 2, "threads": 1, "large": 1},
    "C05": {"global": 4, "multi": 2, "threads": 2},
    "C06": {"single": 3, "big": 1, "multi": 2, "objective": 1, "global": 1, "large": 2},
    "C07": {"multi": 5, "threads-multi": 2, "stop": 1, "large-multi": 2},
    "C08": {"threads": 3, "threads-multi": 3, "threads-stop": 2},
    "C09": {"degenerate": 2, "single": 2, "big": 2, "stop": 1, "global": 1, "threads": 1},
    "C10": {"single": 2, "multi": 3, "threads": 1, "threads-multi": 1},
    "C11": {"fault": 4, "threads-fault": 3, "malformed": 2},
    "C12": {"single": 3, "objective": 1, "global": 2, "multi": 2, "threads": 1, "large": 1},
    "C13": {"stop": 4, "threads-stop": 3},
    "C14": {"single": 2, "multi": 3, "global": 1, "threads": 1, "threads-multi": 2, "large-multi": 1},
    "C15": {"cli": 2, "cli-fail": 2},
    "C21": {"systems": 4, "systems-fault": 2},
}
# profile -> runs in one second of eight workers, measured on the sandbox; the search is sized by runs so that one
# seed decides the same runs everywhere, with a time limit as a safeguard
RATE = {"single": 1750, "objective": 1700, "global": 1600, "multi": 1550, "threads": 800, "threads-multi": 600, "stop": 1700,
        "threads-stop": 750, "fault": 2700, "threads-fault": 2000, "malformed": 2600, "big": 2000, "degenerate": 2400, "cli": 1400,
        "cli-fail": 2200, "systems": 300, "systems-fault": 500, "large": 170, "large-multi": 170}
SECONDS = {"quick": 65, "thorough": 2400}

RULE = ("A case is one simulated run: a program, its options, the search order, the schedule and the faults are drawn from the seed, the real theory "
        "runs under the simulator and every property is checked on the way. It is counted as non-trivial if at least one model was judged and the theory "
        "raised at least one conflict (or, in runs with faults, an injected fault took effect), and as distinct by the hash of its complete event history.")
STUBS = {"real code": "all of libclingo-lpx (parsing, problem, solving, tableau, number backend FLINT, C interface), the clingo library 5.8.2 (grounder, solver, enumerators, multi-threaded search); for C15 also app/ (main.cc, app.cc)",
         "simulated": "thread scheduling (pthread primitives interposed, one thread runs at a time, every step chosen by the seed), the outcome of allocations and host calls made by the theory, stops and cancellations, symbol hashes, memory addresses (no ASLR); search heuristics are the seeded ones of clingo"}


def digest():
    h = hashlib.sha256()
    files = []
    for root in ("libclingo-lpx", "app"):
        for d, _, fs in os.walk(os.path.join(REPO, root)):
            files += [os.path.join(d, f) for f in fs if f.endswith((".cc", ".hh", ".h", ".txt", ".cmake"))]
    sim = os.path.join(HERE, "sim")
    files += [os.path.join(sim, f) for f in os.listdir(sim)]
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as s:
            h.update(s.read())
    return h.hexdigest()[:16]


def build():
    out = os.path.join(HERE, "build", digest())
    exe = os.path.join(out, "simb")
    if not os.path.exists(exe):
        base = os.path.join(HERE, "build")
        os.makedirs(base, exist_ok=True)
        olds = sorted((os.path.join(base, d) for d in os.listdir(base)), key=os.path.getmtime)
        for d in olds[:-3]:  # keep disk use bounded
            subprocess.run(["rm", "-rf", d], check=False)
        tmp = out + ".%d" % os.getpid()
        r = subprocess.run([os.path.join(HERE, "sim", "build.sh"), tmp, "simb"], env=dict(os.environ, REPO=REPO), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            print(r.stdout[-4000:])
            print("ERROR: the simulator does not build from the current tree")
            sys.exit(2)
        try:
            os.rename(tmp, out)
        except OSError:
            subprocess.run(["rm", "-rf", tmp], check=False)
    return exe


def known_findings(prop):
    path = os.path.join(HERE, "known-findings.txt")
    res = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                res.append(line[len("finding: "):])
    return res


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--build":
        print(build())
        return 0
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        return subprocess.run([build(), "--replay", sys.argv[2], "--trace"]).returncode
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in SECONDS:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    exe = build()
    tb = time.time() - t0
    plan = PLAN[prop]
    total = sum(plan.values())
    secs = float(os.environ.get("VERIF_SECONDS", SECONDS[tier]))
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    results, violations, harness = [], [], []
    for profile, share in plan.items():
        t = secs * share / total
        out = os.path.join(HERE, "evidence", ".%s-%s-%d.json" % (prop, profile, os.getpid()))
        replay = os.path.join(HERE, "replays", "%s-%s.replay" % (prop, profile))
        r = subprocess.run([exe, "--profile", profile, "--property", prop, "--runs", str(max(200, int(RATE[profile] * t))), "--time", str(int(t * 2.5) + 5),
                            "--seed", str(seed), "--out", out, "--replay-out", replay], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=HERE)
        sys.stdout.write("".join("%s: %s\n" % (profile, l) for l in r.stdout.splitlines()))
        if os.path.exists(out):
            results.append(json.load(open(out)))
            os.unlink(out)
        if r.returncode == 1:
            violations.append((profile, replay))
            break
        if r.returncode != 0:
            harness.append(profile)
    wall = time.time() - t0
    counters = {}
    for r in results:
        for k, v in r["counters"].items():
            counters[k] = max(counters.get(k, 0), v) if k == "max_cb_steps" else counters.get(k, 0) + v
    sim_wall = sum(r["wall_s"] for r in results) or 1e-9
    runs = sum(r["runs"] for r in results)
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 2), "violations": len(violations),
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": sum(r["distinct_nontrivial"] for r in results),
            "rule": RULE,
            "samples": [s for r in results for s in r["samples"][:1]],
            "profiles": {r["profile"]: {k: r[k] for k in ("runs", "wall_s", "runs_per_hour", "distinct_histories", "distinct_schedules", "distinct_programs", "nontrivial")} for r in results},
            "runs_per_hour": int(runs / sim_wall * 3600),
            "seeds": "run i of a profile uses the seed derived from (%d, profile, i); %d seeds in this run" % (seed, runs),
            "seeds_per_hour": int(runs / sim_wall * 3600),
            "simulated_time": {"unit": "memory accesses of the theory and events at its boundary (the system has no clock)", "theory_steps": counters.get("lpx_steps", 0), "boundary_events": counters.get("sim_events", 0)},
            "faults_injected": {k[6:]: v for k, v in counters.items() if k.startswith("fault_")},
            "distinct_interleavings": {"measure": "hash of the sequence of scheduling decisions (several threads) or of the event history (one thread)", "count": sum(r["distinct_schedules"] for r in results)},
            "counters": counters,
            "components": STUBS,
            "build_s": round(tb, 2),
        },
        "assumptions": ["the clingo library and FLINT are correct (limitations of clingo that had to be kept out are listed in DESIGN.md)",
                        "a search of finitely many seeds; programs have at most a dozen Booleans and up to eight numeric variables so that the reference model can enumerate them"],
    }
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for k in known_findings(prop):
        print("KNOWN-FINDING: " + k)
    print("%s: %d runs, %.0f s, %d conflicts, %d models" % (prop, runs, wall, counters.get("conflicts", 0), counters.get("models", 0)))
    if violations:
        for profile, replay in violations:
            print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    if harness:
        print("ERROR: the simulator failed in %s" % ", ".join(harness))
        return 2
    return 0


sys.exit(main())
