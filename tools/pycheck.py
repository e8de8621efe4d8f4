"""Runs the groups of the worker simulator and gathers what they found."""
import json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RTEST_REPO", "/repo")


REAL = {
    "group": ["python/rtest/worker/*.py, mark.py, raises.py of the working tree, run as python -m rtest.worker", "CPython, its import system, files in a scratch directory"],
    "crash": ["python/rtest/worker/*.py, mark.py, raises.py of the working tree", "CPython down to its libc calls", "src/*.rs of the working tree as in the Rust-side simulator: the native runner that reads what the worker left"],
    "guards": ["python/rtest/raises.py of the working tree", "CPython, its with statement, generators and tracing"],
}
STUBS = {"crash": ["the test files (generated)", "libc calls on the results file and its directory, where a fault strikes", "everything below the native runner (rtsim)"],
         "group": ["the test files (generated)", "pytest's marks (an imitation; pytest is not imported)"], "guards": ["the guarded code and its scheduler (generated)"]}
MEASURE = {"guards": "executions: hash of everything the tasks of a run saw, in order; shapes: hash of the order of kinds of event alone"}


def env(seed, group):
    e = {"PATH": "/usr/bin:/bin", "HOME": "/nonexistent", "LANG": "C.UTF-8", "PYTHONUTF8": "1", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONPATH": f"{REPO}/python",
         "PYTHONHASHSEED": str((seed * 1000003 + group * 7919) % 4294967295), "PYTHONNOUSERSITE": "1"}
    return e


def scratch():
    return tempfile.mkdtemp(prefix="pysim.", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)


def launch(d, job, seed, group):
    p = f"{d}/job{group}.json"
    job = {**job, "group": group, "out": f"{d}/out{group}.json", "scratch": d, "seed": seed}
    json.dump(job, open(p, "w"))
    e = env(seed, group)
    if job["engine"] == "crash":
        e["LD_PRELOAD"] = f"{VERIF}/build/libpysim.so"
    return subprocess.Popen(["python3", f"{VERIF}/pysim/{job['engine']}.py", p], env=e, stdin=subprocess.DEVNULL,
                            stdout=None if job.get("survey") else subprocess.DEVNULL, stderr=open(f"{d}/err{group}", "w"))


def run(prop, n, secs, seed, lanes, cov, violations, problems, known, replays, engine="group", survey=False):
    os.makedirs(replays, exist_ok=True)
    groups = 8
    t0 = time.time()
    d = scratch()
    try:
        job = {"engine": engine, "prop": prop, "step": groups, "runs": n, "secs": secs, "replays": replays, "survey": survey, "lanes": lanes}
        ps = [launch(d, job, seed, g) for g in range(groups)]
        for g, p in enumerate(ps):
            try:
                rc = p.wait(secs + 120)
            except subprocess.TimeoutExpired:
                p.kill()
                rc = "timeout"
            if rc != 0:
                problems.append(f"worker simulator group {g}: {rc}: {open(f'{d}/err{g}').read()[-600:]}")
        stats, hist, nontrivial, shapes = {}, set(), set(), set()
        for g in range(groups):
            try:
                o = json.load(open(f"{d}/out{g}.json"))
            except (OSError, ValueError):
                continue
            for k, v in o["stats"].items():
                stats[k] = stats.get(k, 0) + v
            hist.update(o["hist"])
            nontrivial.update(o["nontrivial"])
            shapes.update(o["shapes"])
            for f in o["found"]:
                if f["violation"] is not None:
                    violations.append((f["violation"], f["replay"]))
        violations.sort(key=lambda v: v[1])
        wall = max(time.time() - t0, 1e-9)
        n = stats.get("scenarios", 0)
        cov["evaluations"] = cov.get("evaluations", 0) + n
        cov["distinct_nontrivial"] = cov.get("distinct_nontrivial", 0) + len(nontrivial)
        samples = [f"index {g}" for g in range(2)]
        for g in range(groups):
            try:
                samples = json.load(open(f"{d}/out{g}.json")).get("samples") or samples
                break
            except (OSError, ValueError):
                pass
        cov.setdefault("samples", []).extend(samples[:2])
        cov[engine] = {
            "scenarios": n, "distinct_executions": len(hist), "distinct_shapes": len(shapes), "stats": dict(sorted(stats.items())),
            "distinct_measure": MEASURE.get(engine) or "executions: hash of every event, status and record of a run (durations, addresses and scratch paths aside); shapes: hash of the order of lifecycle events and injections alone",
            "seeds_per_hour": int(n / wall * 3600),
            "faults_injected": {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault:")},
            "simulated_time": "none: no clock is read here, but by the worker for the durations it records",
            "real": REAL[engine], "stubs": STUBS[engine],
        }
        if n == 0:
            problems.append("the worker simulator ran nothing")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def replay(path):
    rep = json.load(open(path))
    d = scratch()
    try:
        seed, group = rep["seed"], rep["index"] % 8
        p = launch(d, {"engine": rep.get("program", "group"), "prop": rep["property"], "step": 8, "replay": os.path.abspath(path)}, seed, group)
        if p.wait() != 0:
            sys.exit(open(f"{d}/err{group}").read())
        o = json.load(open(f"{d}/out{group}.json"))
        print(json.dumps(o, indent=1, ensure_ascii=True)[:20000])
        mine = [v for v in o["violations"] if v["prop"] == rep["property"]]
        print("same history:", o["same"], "| violations:", len(mine))
        return 1 if mine else 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    cov, v, pr = {}, [], []
    run(sys.argv[1], int(sys.argv[2]), 600, int(sys.argv[3]) if len(sys.argv) > 3 else 1, 8, cov, v, pr, None, f"{VERIF}/replays", engine=sys.argv[4] if len(sys.argv) > 4 else "group", survey=True)
    print(json.dumps(cov[sys.argv[4] if len(sys.argv) > 4 else "group"], indent=1), cov["distinct_nontrivial"])
    print(pr)
