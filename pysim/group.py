"""One group of worker simulations: python3 group.py JOB.json

Runs the real rtest.worker, as shipped, in a forked child per scenario: interpreter, modules and hash seed are the ones of this
process, the test files are generated, every line a test or the worker executes is a point where a fault may be injected.
"""
import atexit
import collections
import gc
import hashlib
import io
import json
import os
import random
import re
import runpy
import shutil
import signal
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import oracle  # noqa: E402
import simlog  # noqa: E402
import spec  # noqa: E402

REAL = ("runner.py", "__main__.py", "mark.py", "raises.py")


def preload():
    """Everything the worker needs is imported once, in the zygote."""
    import argparse, asyncio, contextlib, fnmatch, functools, importlib.util, inspect, tempfile, threading, traceback, types, unittest, warnings  # noqa
    import rtest  # noqa
    import rtest.mark, rtest.raises, rtest.worker.runner  # noqa
    sys.modules["_simlog"] = simlog


class Tracer:
    """Raises one exception at the n-th line executed in the files it watches."""

    def __init__(self, inj, root):
        self.n, self.exc, self.where, self.root, self.seen = inj["n"], inj["exc"], inj["where"], root, 0

    def inside(self, name):
        if self.where == "test":
            return name.startswith(self.root)
        if self.where == "any" and name.startswith(self.root):
            return True
        return "/rtest/" in name or os.path.basename(os.path.dirname(name)) in ("json",) or os.path.basename(name) in (
            "contextlib.py", "inspect.py", "traceback.py", "warnings.py", "fnmatch.py", "pathlib.py", "dataclasses.py", "argparse.py")

    def call(self, frame, event, arg):
        if event != "call" or self.n <= 0 or not self.inside(frame.f_code.co_filename):
            return None
        first = True

        def line(frame, event, arg):
            nonlocal first
            if event != "line" or self.n <= 0:
                return line
            if first and self.where == "test":
                first = False
                return line
            self.n -= 1
            if self.n == 0:
                sys.settrace(None)
                simlog.emit("inject", self.exc, self.importing(frame), f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno}")
                if self.exc == "SIGKILL":
                    os.kill(os.getpid(), signal.SIGKILL)
                raise simlog.INJECT[self.exc]("injected")
            return line
        return line

    def importing(self, frame):
        path = None
        while frame is not None:
            if frame.f_code.co_name == "<module>" and frame.f_code.co_filename.startswith(self.root):
                path = os.path.relpath(frame.f_code.co_filename, self.root)
            frame = frame.f_back
        return path


def shut_down():
    """What the interpreter does when it ends: wait for threads, call what is registered for the exit, drop the worker's modules."""
    try:
        threading._shutdown()
        atexit._run_exitfuncs()
        for name in [m for m in sys.modules if m == "rtest" or m.startswith("rtest.")]:
            sys.modules.pop(name).__dict__.clear()
    except BaseException:
        pass  # printed and ignored


def child(sc, root, out, log, args, n, arm=None):
    """Never returns."""
    code = 99
    try:
        signal.signal(signal.SIGINT, signal.default_int_handler)
        simlog.PID = os.getpid()
        atexit._clear()
        os.setpgid(0, 0)
        simlog.FD = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o600)
        for i, name in ((1, "real_out"), (2, "real_err")):
            fd = os.open(os.path.join(os.path.dirname(log), name), os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o600)
            os.dup2(fd, i)
            os.close(fd)
        sys.stdout = sys.__stdout__ = io.TextIOWrapper(io.BufferedWriter(io.FileIO(1, "w", closefd=False)), encoding="utf-8", line_buffering=True)
        sys.stderr = sys.__stderr__ = io.TextIOWrapper(io.BufferedWriter(io.FileIO(2, "w", closefd=False)), encoding="utf-8", errors="backslashreplace", line_buffering=True)
        mine = (sys.stdout, sys.stderr)
        os.chdir(root)
        random.seed(n)
        gc.enable()
        if sc["gc"]:
            gc.set_threshold(sc["gc"])
        sys.argv = ["worker"] + args
        if sc.get("inject"):
            sys.settrace(Tracer(sc["inject"], root + "/").call)
        if arm:
            arm(simlog.FD)
        try:
            try:
                runpy.run_module("rtest.worker", run_name="__main__", alter_sys=True)
                code = 0
            finally:
                sys.settrace(None)
        except SystemExit as e:
            code = 0 if e.code is None else (e.code & 0xff if isinstance(e.code, int) else 1)
            if not isinstance(e.code, (int, type(None))):
                os.write(2, f"{e.code}\n".encode("utf-8", "replace"))
        except KeyboardInterrupt:
            code = 98
        except BaseException as e:
            code = 97
            os.write(2, f"died: {type(e).__name__}: {e!r}\n".encode("utf-8", "replace"))
        simlog.emit("end-of-worker", sys.stdout is mine[0] and sys.stderr is mine[1])
        shut_down()
        for s in mine:
            try:
                s.flush()
            except Exception:
                pass
    finally:
        os._exit(code)


ADDR = re.compile(r"0x[0-9a-f]{6,}")


def write_files(sc, root):
    os.makedirs(root)
    for f in sc["files"]:
        src, extra = spec.render_file(f)
        p = os.path.join(root, f["path"])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if src is not None:
            with open(p, "wb") as h:
                h.write(src)
        for n, b in extra.items():
            with open(os.path.join(root, n), "wb") as h:
                h.write(b)


def slurp(p):
    try:
        with open(p, "rb") as f:
            return f.read()
    except OSError:
        return None


def wait(pid, secs):
    end = time.monotonic() + secs
    pause = 0.0005
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            return st
        if time.monotonic() > end:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            return None
        time.sleep(pause)
        pause = min(pause * 1.3, 0.01)


def run(sc, base, n, arm=None):
    """One simulated run: what was observed."""
    while os.path.exists(base):
        shutil.rmtree(base, ignore_errors=True)
    root = base + "/proj"
    write_files(sc, root)
    out, log = base + "/results/out.jsonl", base + "/log"
    if sc.get("outdir", True):
        os.mkdir(base + "/results")
    args = ["--root", root, "--out", out]
    if sc["classes"]:
        args += ["--python-classes", *sc["classes"]]
    if sc["functions"]:
        args += ["--python-functions", *sc["functions"]]
    args += ["--", *[os.path.join(root, f["path"]) for f in sc["files"]]]
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        child(sc, root, out, log, args, n, arm)
    st = wait(pid, 60)
    try:
        os.killpg(pid, signal.SIGKILL)  # what its tests may have left running
    except OSError:
        pass
    obs = {"hang": st is None, "status": None, "events": [], "streams_back": True}
    if st is not None:
        obs["status"] = os.waitstatus_to_exitcode(st)
    for line in (slurp(log) or b"").decode().splitlines():
        try:
            e = json.loads(line)
        except ValueError:
            continue
        if e[0] == "end-of-worker":
            obs["streams_back"] = e[1]
        else:
            obs["events"].append(e)
    obs["results"] = slurp(out)
    for k in ("real_out", "real_err"):
        obs[k] = (slurp(f"{base}/{k}") or b"").decode("utf-8", "replace")
    obs["died"] = obs["real_err"][-400:]
    return obs


def history(obs, base):
    """Hash of what happened, addresses, durations and the scratch path aside."""
    h = hashlib.blake2b(digest_size=8)
    h.update(json.dumps([obs["hang"], obs["status"], obs["events"]]).encode())
    r = obs["results"]
    if r is not None:
        t = r.decode("utf-8", "replace").replace(base, "")
        t = ADDR.sub("0x", t)
        t = re.sub(r'"duration_ms": [0-9.e+-]+', "", t)
        h.update(t.encode("utf-8", "surrogatepass"))
    return h.hexdigest()


def judge(sc, obs):
    j = oracle.Judge(sc, obs)
    return j.run(), j.stats


def scenario(prop, seed, index):
    g = spec.Gen(random.Random(f"{prop}/{seed}/{index}"))
    return spec.clean(spec.gen(g, prop))


# ---- minimising --------------------------------------------------------------------------------------------------------------

def smaller(x, path=()):
    """Variants of a scenario with something taken away."""
    if isinstance(x, list):
        n = len(x)
        if n > 3:
            for a in range(0, n, max(1, n // 3)):
                yield x[:a] + x[a + max(1, n // 3):]
        for i in range(n):
            yield x[:i] + x[i + 1:]
        for i in range(n):
            if isinstance(x[i], (list, dict)):
                for y in smaller(x[i], path + (i,)):
                    yield x[:i] + [y] + x[i + 1:]
    elif isinstance(x, dict):
        for k in sorted(x):
            v = x[k]
            if k in ("skip", "helper", "imp", "init", "setup", "teardown", "classes", "functions") and v is not None and not path_key(path, k):
                yield {**x, k: None}
            if k == "style" and v not in ("plain",):
                yield {**x, k: "plain"}
            if k == "n" and isinstance(v, int) and v > 1:
                yield {**x, k: v // 2}
                yield {**x, k: v - 1}
            if k in ("files", "items", "methods", "cls", "off", "sup", "acts", "cases", "vals", "pre", "init", "setup", "teardown", "imp", "helper", "fn", "inject", "io") and isinstance(v, (list, dict)):
                for y in smaller(v, path + (k,)):
                    yield {**x, k: y}


def path_key(path, k):
    return False


def minimise(eng, sc, prop, cls, base, n, budget):
    end = time.monotonic() + budget
    best = sc
    again = True
    while again and time.monotonic() < end:
        again = False
        for cand in eng.smaller(best):
            if time.monotonic() > end:
                break
            try:
                cand = eng.clean(json.loads(json.dumps(cand)))
                obs = eng.run(cand, base, n)
                v, _ = eng.judge(cand, obs)
            except Exception:
                continue
            if any(x["prop"] == prop and x["class"] == cls for x in v):
                best, again = cand, True
                break
    return best


def clean(sc):
    return spec.clean(sc)


def sources(sc):
    return {f["path"]: (spec.render_file(f)[0] or b"").decode("utf-8", "replace") for f in sc["files"]}


def main(eng):
    job = json.load(open(sys.argv[1]))
    prop, g, step, seed = job["prop"], job["group"], job["step"], job["seed"]
    base = f"{job['scratch']}/g{g}"
    eng.preload()
    gc.collect()
    gc.freeze()
    if job.get("replay"):
        rep = json.load(open(job["replay"]))
        obs = eng.run(rep["scenario"], base, rep["n"])
        v, _ = eng.judge(rep["scenario"], obs)
        h = history(obs, base)
        json.dump({"violations": v, "history": h, "same": h == rep["history"], "obs": {**obs, "results": obs["results"] and obs["results"].decode("utf-8", "replace")}},
                  open(job["out"], "w"))
        return
    stats, hist, found, shapes = collections.Counter(), set(), [], set()
    nontrivial = set()
    end = time.monotonic() + job["secs"]
    i = g
    classes = set()
    while i < job["runs"] and time.monotonic() < end:
        sc = eng.scenario(prop, seed, i)
        obs = eng.run(sc, base, i)
        v, st = eng.judge(sc, obs)
        h = history(obs, base)
        if i % 50 == g % 50:
            if history(eng.run(sc, base, i), base) != h:
                stats["not-repeatable"] += 1
                found.append({"violation": None, "index": i, "note": "not repeatable"})
            else:
                stats["repeated"] += 1
        hist.add(h)
        shapes.add(hashlib.blake2b(json.dumps([e[:2] + e[3:5] if e[0] == "start" else e[:2] for e in obs["events"]]).encode(), digest_size=8).hexdigest())
        if st["completed"] or st["interrupted"]:
            nontrivial.add(h)
        stats.update(st)
        stats["scenarios"] += 1
        for e in obs["events"]:
            if e[0] == "inject":
                stats[f"fault:{e[1]}"] += 1
            stats["events"] += 1
        if sc.get("inject"):
            stats["inject-planned"] += 1
        mine = [x for x in v if x["prop"] == prop]
        for x in v:
            if x["prop"] != prop:
                stats["other:" + x["prop"] + ":" + x["class"]] += 1
        if job.get("survey") and len(mine) < len(v):
            print("OTHER", i, [x for x in v if x["prop"] != prop][0], flush=True)
        if mine:
            stats["violating"] += 1
            if job.get("survey"):
                print(i, mine[0]["class"], mine[0]["msg"], flush=True)
            elif mine[0]["class"] not in classes and len(classes) < 4:
                x = mine[0]
                classes.add(x["class"])
                small = minimise(eng, sc, prop, x["class"], base, i, 25)
                obs = eng.run(small, base, i)
                v2, _ = eng.judge(small, obs)
                x2 = next((y for y in v2 if y["prop"] == prop and y["class"] == x["class"]), None)
                if x2 is None:
                    small, x2 = sc, x
                    obs = eng.run(small, base, i)
                rep = {"engine": "pysim", "program": job["engine"], "property": prop, "violation": x2, "seed": seed, "index": i, "n": i, "hashseed": os.environ["PYTHONHASHSEED"],
                       "scenario": small, "files": eng.sources(small),
                       "events": obs["events"], "status": obs["status"], "history": history(obs, base)}
                path = os.path.join(job["replays"], f"{prop}-{seed}-{i}.json")
                json.dump(rep, open(path, "w"), indent=1)
                found.append({"violation": x2, "replay": path, "index": i})
                if len(classes) >= 1 and not job.get("all"):
                    break
        i += step
    shutil.rmtree(base, ignore_errors=True)
    samples = [json.dumps(eng.scenario(prop, seed, g))[:3000]]
    json.dump({"samples": samples, "stats": stats, "hist": sorted(hist), "nontrivial": sorted(nontrivial), "shapes": sorted(shapes), "found": found}, open(job["out"], "w"))


if __name__ == "__main__":
    main(sys.modules[__name__])
