#!/usr/bin/env python3
"""Decide one property: python3 check.py C01 [quick|thorough]

Builds the simulators from /repo's working tree, searches, writes evidence/<id>.json.
Exit 0: held on everything explored; 1: a VIOLATION line was printed; anything else: the check itself could not run.
"""
import json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(VERIF, "build")
KNOWN = os.path.join(VERIF, "known-findings.txt")
REPLAYS = os.path.join(VERIF, "replays")
sys.path.insert(0, os.path.join(VERIF, "tools"))

# property -> (scenarios in a quick run, in a thorough run) of the Rust-side simulator
RUST = {
    "C01": (16000, 400000), "C02": (12000, 300000), "C03": (10000, 250000), "C04": (14000, 250000), "C05": (16000, 400000),
    "C06": (16000, 400000), "C07": (16000, 400000), "C08": (5000, 60000), "C09": (20000, 400000), "C10": (10000, 250000),
    "C11": (9000, 200000), "C12": (10000, 250000), "C13": (20000, 400000), "C19": (24000, 400000),
}
# property -> (scenarios in a quick run, in a thorough run) of the worker simulator
PY = {
    "C14": (9000, 500000), "C15": (9000, 500000), "C16": (9000, 500000), "C17": (9000, 500000), "C18": (1500, 60000), "C20": (60000, 4000000),
}
ENGINE = {"C18": "crash", "C20": "guards"}
SECS = {"quick": 150, "thorough": 3600}

PYRULE = ("a generated set of test files (functions, classes with inheritance, lifecycle methods, stacked case lists, skip marks, import failures, writes to and tampering with the streams, "
          "every kind of exception) run by the real worker in its own process, with exceptions injected at seeded lines; non-trivial: the worker completed, or was interrupted as planned; "
          "distinct: by hash of all events, records and the status")
RULES = {
    "C18": ("a generated set of test files, run once undisturbed by the real worker and once for each of four variants that strike seeded system calls on the results (errors, short transfers, interruptions, kills before, "
            "during and after), or seeded lines of Python (kill, MemoryError, interrupt); what is left goes to the real native runner under the Rust-side simulator; non-trivial: something struck; distinct: by hash of all that struck, the status and the exit"),
    "C20": ("a generated set of tasks made of guarded blocks (own, shared, reused and nested contexts, types, tuples, patterns), handlers, loops and raising statements, under one seeded schedule with exceptions thrown "
            "into waiting tasks, at numbered points and on lines of raises.py; run with the real rtest.raises and with the blocks written out as try/except, and compared; non-trivial: a guarded block was entered; distinct: by hash of all the tasks saw"),
    "C14": PYRULE, "C15": PYRULE, "C16": PYRULE, "C17": PYRULE,
    "C01": "a generated project, arguments and per-worker behaviour (records, exits, signals, start failures, results-file and pipe faults) run under one seeded schedule; non-trivial: at least two workers or at least one fault or failure",
}
RULE = ("a generated project tree, command line, environment and behaviour of every started process, run to its end by the real code under one seeded schedule "
        "(context switches, process timing, pipe fill, directory order, hash seed) with seeded faults; non-trivial: the run got to the point the property speaks about "
        "(it started the processes, or met the fault, the property is about); distinct: by hash of the whole execution history")
REAL_RUST = ["src/*.rs of the working tree: command line, configuration, file collection and its walk, scheduling, subproject grouping, worker threads, native runner, pytest executor, result parsing, reporting",
             "Rust's standard library (threads, process spawning, pipes, files) down to the libc calls", "tempfile, walkdir, serde_json, toml, glob, clap"]
STUB_RUST = ["libc calls (threads, locks, pipes, processes, clocks, randomness, environment, file system faults) by the simulator",
             "pytest and Python worker processes by scripted stand-ins", "Python discovery inside one file (ruff parser: not available here) by a table of ids", "pyo3 by a stub that calls the registered functions"]


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def clip(v):
    """A sample for the evidence: long texts and lists only in part."""
    if isinstance(v, str):
        return v if len(v) <= 300 else f"{v[:200]}... ({len(v)} characters)"
    if isinstance(v, list):
        return [clip(x) for x in v[:60]] + ([f"... ({len(v)} entries)"] if len(v) > 60 else [])
    if isinstance(v, dict):
        out = {clip(k): clip(x) for k, x in list(v.items())[:60]}
        return out if len(v) <= 60 else {**out, "...": f"{len(v)} entries"}
    return v


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in SECS else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": RULES.get(prop, RULE), "samples": []}
    violations, problems = [], []
    lanes = os.cpu_count() or 4

    if prop in RUST:
        b = run([sys.executable, f"{VERIF}/tools/build.py"])
        if b.returncode != 0:
            problems.append("the Rust-side simulator does not build:\n" + b.stderr[-4000:])
        else:
            out = f"{BUILD}/out-{prop}-{os.getpid()}.json"
            n = RUST[prop][tier == "thorough"]
            r = run([f"{BUILD}/target/debug/rtsim", "run", prop, "--runs", str(n), "--secs", str(SECS[tier]), "--seed", str(seed),
                     "--lanes", str(lanes), "--out", out, "--known", KNOWN, "--replays", REPLAYS])
            if r.returncode not in (0, 1):
                problems.append(f"rtsim ended with {r.returncode}: {r.stderr[-2000:]}")
            else:
                d = json.load(open(out))
                os.unlink(out)
                s = d["stats"]
                cov["evaluations"] += s["scenarios"]
                cov["distinct_nontrivial"] += d["distinct_nontrivial"]
                cov["samples"] += s["samples"][:2]
                cov["rust_side"] = {
                    "build": b.stdout.strip(), "scenarios": s["scenarios"], "runs": s["runs"], "nontrivial_scenarios": s["nontrivial"],
                    "undecided_scenarios": s["undecided"], "unsupported_calls": s["unsupported"],
                    "distinct_executions": d["distinct"], "distinct_measure": "hash of the whole history of one run: every intercepted call with its result, every scheduling choice, every process and its output",
                    "seeds_per_hour": int(s["scenarios"] / max(d["wall_s"], 1e-9) * 3600), "runs_per_hour": int(s["runs"] / max(d["wall_s"], 1e-9) * 3600),
                    "simulated_seconds": round(s["sim_ns"] / 1e9, 3), "scheduling_steps": s["steps"], "context_switches": s["switches"],
                    "processes_started": s["procs"], "most_processes_alive": s["max_live"], "most_threads_alive": s["max_threads"],
                    "scenarios_whose_processes_wait_for_each_other": s["barrier"],
                    "faults_injected": s["fired"], "exit_statuses": s["exits"], "ends": s["ends"],
                    "repeated_scenarios": s["repeated"], "not_repeatable": s["not_repeatable"], "violations_not_reproduced": s["not_reproduced"],
                    "real": REAL_RUST, "stubs": STUB_RUST, "fingerprint": "%016x" % s["fingerprint"],
                }
                for what, k in s["known"].items():
                    print(f"KNOWN-FINDING: property={prop} {what} ({k} scenarios)")
                if d["violation"]:
                    violations.append((d["violation"], d["replay"]))
                elif s["undecided"] * 2 > s["scenarios"] or s["scenarios"] == 0:
                    problems.append(f"{s['undecided']} of {s['scenarios']} scenarios could not be decided: {s['ends']} {s['unsupported']}")

    ready = True
    if ENGINE.get(prop) == "crash":
        b = run([sys.executable, f"{VERIF}/tools/build.py"])
        if b.returncode != 0:
            ready = False
            problems.append("the simulators do not build:\n" + b.stderr[-4000:])
    if prop in PY and ready:
        import pycheck
        pycheck.run(prop, PY[prop][tier == "thorough"], SECS[tier], seed, lanes, cov, violations, problems, KNOWN, REPLAYS, engine=ENGINE.get(prop, "group"))

    cov["samples"] = clip(cov["samples"])
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": (["stand-in processes behave within the generated family", "one host, one file system; the kernel's own file system under the simulated calls is correct"] if prop in RUST else [])
          + (["CPython is correct", "test programs are from the generated family; single-threaded but for joined threads"] if prop in PY else []),
          "wall_s": round(time.time() - t0, 3), "violations": len(violations)}
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for v, rep in violations:
        print(f"{v['class']}: {v['msg']}")
        print(f"VIOLATION property={prop} replay={rep}")
    if violations:
        return 1
    if problems:
        for p in problems:
            print(p, file=sys.stderr)
        return 2
    print(f"{prop}: held on {cov['evaluations']} scenarios ({cov['distinct_nontrivial']} distinct and non-trivial), {ev['wall_s']} s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
