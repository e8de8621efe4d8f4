"""Simulations of the worker meeting its end, or failing file operations: python3 crash.py JOB.json

A scenario is a set of test files and some variants of one run over them. The real worker runs once undisturbed, then once for each
variant, which strikes chosen system calls on the results (by the preloaded library) or lines of Python with errors, short transfers,
interruptions or death. What it leaves behind - results file and status - goes to the real native runner, run by rtsim, together with
what healthy workers left. If that says success, the results have to be those of the undisturbed run.
"""
import collections
import ctypes
import json
import os
import random
import signal
import subprocess
import sys

import group
import oracle
import spec

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KINDS = {"error": 1, "error after": 2, "short": 3, "interrupted": 4, "SIGINT": 5, "killed before": 6, "killed after": 7, "killed during": 8, "error from now on": 9}
ERRNOS = {"EIO": 5, "ENOSPC": 28, "EDQUOT": 122, "EACCES": 13, "EROFS": 30, "EMFILE": 24, "ENOENT": 2, "EAGAIN": 11, "EFBIG": 27, "ENOMEM": 12, "EBADF": 9}
LIB = RTSIM = None


def preload():
    global LIB, RTSIM
    group.preload()
    LIB = ctypes.CDLL(f"{VERIF}/build/libpysim.so")
    LIB.pysim_disarm.restype = ctypes.c_long
    RTSIM = subprocess.Popen([f"{VERIF}/build/target/debug/rtsim", "feed"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env={"PATH": "/usr/bin:/bin"})


def feed(req):
    RTSIM.stdin.write(json.dumps(req).encode() + b"\n")
    RTSIM.stdin.flush()
    return json.loads(RTSIM.stdout.readline())


# ---- generation -------------------------------------------------------------------------------------------------------------

def strike(r):
    k = r.choice(["error"] * 4 + ["error after", "short", "short", "interrupted", "interrupted", "SIGINT", "killed before", "killed after", "killed during", "killed during", "error from now on", "error from now on"])
    if k == "error after":
        return [r.randrange(1 << 20), k, r.choice(["EIO", "EDQUOT", "ENOSPC"])]
    if k.startswith("error"):
        return [r.randrange(1 << 20), k, r.choice(list(ERRNOS) if k == "error" else ["EIO", "ENOSPC", "EDQUOT", "EFBIG"])]
    return [r.randrange(1 << 20), k, r.randrange(1, 1 << 14)]


def variant(r):
    v = {"plan": [], "inject": None, "healthy": r.choice([0, 0, 1, 2]), "seed": r.randrange(1 << 40)}
    k = r.randrange(100)
    if k < 55:
        v["plan"] = [strike(r)]
    elif k < 78:
        v["plan"] = [strike(r) for _ in range(r.choice([2, 3, 5]))]
    elif k < 82:
        v["plan"] = [[i, "short", r.randrange(1, 1 << 14)] for i in range(24)]
    elif k < 84:
        v["plan"] = [[i, "interrupted", 0] for i in range(3, 14)]
    else:
        v["inject"] = {"where": r.choice(["any", "any", "worker", "test"]), "n": 1, "exc": r.choice(["SIGKILL", "SIGKILL", "SIGKILL", "MemoryError", "KeyboardInterrupt", "KeyboardInterrupt", "SystemExit", "Injected"])}
        if v["inject"]["exc"] == "SystemExit":
            v["inject"]["where"] = "test"
        v["inject"]["n"] = int(10 ** r.uniform(0, 1.7 if v["inject"]["where"] == "test" else 3.6))
        if r.randrange(4) == 0:
            v["plan"] = [strike(r)]
    return v


def scenario(prop, seed, index):
    g = spec.Gen(random.Random(f"{prop}/{seed}/{index}"))
    w = spec.clean(spec.gen(g, "C18"))
    w["outdir"] = g.p(85)
    return {"w": w, "variants": [variant(g.r) for _ in range(4)]}


# ---- running ----------------------------------------------------------------------------------------------------------------

def status_of(obs):
    """As python -m rtest.worker would have ended."""
    return {97: 1, 98: -signal.SIGINT}.get(obs["status"], obs["status"])


def records(obs):
    try:
        out = []
        for line in obs["results"].decode("utf-8").split("\n"):
            if line.strip():
                r = json.loads(line)
                out.append([r["nodeid"], r["outcome"], r.get("error_type"), r.get("stdout"), r.get("stderr"), ((r.get("error") or {}).get("reason"))])
        return sorted(out, key=json.dumps)
    except Exception:
        return None


HEALTHY = json.dumps({"nodeid": "test_h.py::test_h", "outcome": "passed", "duration_ms": 1.5, "stdout": "", "stderr": "", "error": None, "error_type": None}) + "\n"


def arm_with(plan, base):
    text = "".join(f"{n} {k} {a};" for n, k, a in plan).encode()
    return lambda fd: LIB.pysim_arm(f"{base}/results".encode(), f"{base}/tmp".encode(), text, fd)


def native(obs, v):
    mine = {"hex": obs["results"].hex() if obs["results"] is not None else None, "status": status_of(obs), "err": obs["real_err"][-300:].encode("ascii", "replace").decode()}
    r = random.Random(v["seed"])
    ws = [{"hex": HEALTHY.encode().hex(), "status": 0, "err": ""} for _ in range(v["healthy"])]
    ws.insert(r.randrange(len(ws) + 1), mine)
    return feed({"seed": v["seed"], "workers": ws})


def run(sc, base, n):
    w = sc["w"]
    ref = group.run({**w, "inject": None}, base, n, arm_with([], base))
    calls = sum(1 for e in ref["events"] if e[0] == "io")
    out = {"hang": ref["hang"], "status": ref["status"], "events": [e for e in ref["events"] if e[0] == "io"], "results": None, "ref": {"status": status_of(ref) if not ref["hang"] else None, "records": records(ref) if ref["results"] is not None else None, "calls": calls}, "variants": []}
    if ref["hang"]:
        return out
    for v in sc["variants"]:
        # calls beyond those of the undisturbed run are reached too: one that fails is often tried again
        plan = {}
        for at, kind, arg in v["plan"]:
            nth = 1 + at % (calls + 2)
            plan.setdefault(nth, [nth, KINDS[kind], ERRNOS.get(arg, arg)])
        obs = group.run({**w, "inject": v["inject"]}, base, n, arm_with(sorted(plan.values()), base))
        struck = [e[1:] for e in obs["events"] if e[0] == "io" and e[3]]
        lines = [e[1] for e in obs["events"] if e[0] == "inject"]
        rec = records(obs) if obs["results"] is not None else None
        o = {"hang": obs["hang"], "status": None if obs["hang"] else status_of(obs), "struck": struck, "lines": lines, "size": len(obs["results"]) if obs["results"] is not None else None,
             "same": rec is not None and rec == out["ref"]["records"], "count": len(rec) if rec is not None else None, "native": None}
        if not obs["hang"]:
            a = native(obs, v)
            o["native"] = {k: a[k] for k in ("end", "exit", "unsupported", "hash")}
        out["variants"].append(o)
        out["events"] += [["variant", o["hang"], o["status"], struck, lines, o["size"] is not None, o["native"] and o["native"]["exit"]]]
    return out


def judge(sc, obs):
    st, bad = collections.Counter(), []
    ref = obs["ref"]
    if obs["hang"]:
        st["the undisturbed run did not end"] += 1
        return bad, st
    # the files' own tests may interrupt the worker: then the undisturbed run is no success either
    cases = sum(len(spec.cases_of(sc["w"], f)) for f in sc["w"]["files"] if f["imp"] is None)
    whole = ref["status"] in (0, 1) and ref["records"] is not None and len(ref["records"]) >= cases
    failing = any(f["imp"] for f in sc["w"]["files"]) or not whole or any(r[1] not in ("passed", "skipped") for r in ref["records"])
    st["undisturbed: " + ("complete, all passed" if whole and not failing else "complete, some failed" if whole else "the worker died of its tests")] += 1
    for v, o in zip(sc["variants"], obs["variants"]):
        if o["hang"]:
            bad.append({"prop": "C18", "class": "hang", "msg": f"the worker does not end: {o['struck']}"})
            continue
        a = o["native"]
        if a["end"] != "exit" or a["unsupported"]:
            st["undecided"] += 1
            continue
        for s in o["struck"]:
            st[f"fault:{s[0]} {s[2]}"] += 1
        for e in o["lines"]:
            st[f"fault:{e} at a line"] += 1
        st["completed" if o["struck"] or o["lines"] else "nothing struck"] += 1
        st["native exit %s, worker %s" % (a["exit"], "ended with 0" if o["status"] == 0 else "ended with 1" if o["status"] == 1 else "died")] += 1
        if a["exit"] == 0 and (failing or not whole or not o["same"]):
            left = "no results file" if o["size"] is None else f"{o['count']} records" if o["count"] is not None else "unreadable results"
            want = f"{len(ref['records'])} records, {'some failing' if failing else 'all passing'}" if whole else "no results (its tests end it)"
            bad.append({"prop": "C18", "class": "looks-successful",
                        "msg": f"the native run exits 0; the worker, struck by {o['struck'] + o['lines']}, ended with {o['status']} and left {left}; undisturbed: {want}"})
        elif a["exit"] != 0 and whole and not failing and not o["struck"] and not o["lines"] and o["same"]:
            st["a healthy run was called failed"] += 1
    return bad, st


def clean(sc):
    if not sc["variants"] or not sc["w"]["files"]:
        raise ValueError
    spec.clean(sc["w"])
    return sc


def smaller(sc):
    for i in range(len(sc["variants"])):
        if len(sc["variants"]) > 1:
            yield {**sc, "variants": [sc["variants"][i]]}
    for i, v in enumerate(sc["variants"]):
        def with_(x):
            return {**sc, "variants": sc["variants"][:i] + [x] + sc["variants"][i + 1:]}
        for j in range(len(v["plan"])):
            yield with_({**v, "plan": v["plan"][:j] + v["plan"][j + 1:]})
        if v["inject"] and v["plan"]:
            yield with_({**v, "inject": None})
        if v["healthy"]:
            yield with_({**v, "healthy": 0})
    for w in group.smaller(sc["w"]):
        yield {**sc, "w": w}


def sources(sc):
    return group.sources(sc["w"])


if __name__ == "__main__":
    group.main(sys.modules[__name__])
