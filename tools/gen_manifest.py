#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
TECH_R = "deterministic simulation with fault injection: the real Rust code over a simulated libc (seeded schedules, process behaviour and faults)"
TECH_P = "deterministic simulation with fault injection: the real Python worker, forked per run, with seeded test programs, exceptions and I/O faults"
NOTE_R = ("Seeded search, not exhaustive: every scenario runs the working tree's Rust code (threads, process spawning, pipes, files) under a simulator that decides every "
          "interleaving, delay and fault at the libc boundary, and is judged against a reference model. Trusted: the simulator's libc semantics, the scripted stand-ins for test processes, "
          "a stub for discovery inside one file (the ruff parser is not available offline).")
NOTE_P = ("Seeded search, not exhaustive: every scenario runs the working tree's Python worker on generated test files whose expected records are known by construction, "
          "with seeded exceptions and faults. Trusted: CPython, the scenario generator and its reference model.")
NA = {
    "C21": "needs the ruff Python parser, whose sources are absent from /repo (empty submodule) and from the cargo cache: static discovery cannot be built or run here; it is also a pure function of one file, with no schedule, time, I/O or fault for a simulator to control",
    "C22": "a pure function of the declared cases: no concurrency, time, I/O, fault or history for a simulator to control (its effect on executed records is covered by C14 for the ids that are generated there)",
}
checks = []
for l in open(f"{V}/properties.jsonl"):
    p = json.loads(l)["id"]
    if p in NA or not (p in check.RUST or p in check.PY):
        continue
    tech = "; ".join(t for t, d in ((TECH_R, check.RUST), (TECH_P, check.PY)) if p in d)
    note = " ".join(t for t, d in ((NOTE_R, check.RUST), (NOTE_P, check.PY)) if p in d)
    checks.append({"property": p, "quick_cmd": f"python3 check.py {p} quick", "thorough_cmd": f"python3 check.py {p} thorough",
                   "technique": tech, "level": "exploration", "level_note": note})
claimed = {c["property"] for c in checks}
na = [{"property": p, "reason": r} for p, r in NA.items()]
for l in open(f"{V}/properties.jsonl"):
    p = json.loads(l)["id"]
    if p not in claimed and p not in NA:
        na.append({"property": p, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "python3 tools/build.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the seam is the libc boundary (symbols defined by the simulator's executable) and, for the Python worker, fork and LD_PRELOAD. /repo carries fix: commits only."}
open(f"{V}/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
