"""Judges one simulated run of the worker against the model in spec.py."""
import collections
import json
import re

import spec

SURR = re.compile("[\ud800-\udfff]")


def same_text(want, got):
    """Equal, lone surrogates aside, which may have been replaced."""
    if want == got:
        return True
    if not SURR.search(want):
        return False
    rx = re.escape(SURR.sub("\x01\x02\x01", want)).replace(re.escape("\x01\x02\x01"), r"(?:[^\x01]{1,12}?)")
    return re.fullmatch(rx, got, re.S) is not None


class Exec:
    """One observed execution: the phases of one test case in the order they ran."""
    __slots__ = ("cls", "inst", "phases", "case", "injected", "ki", "ki_phase")

    def __init__(self, cls, inst):
        self.cls, self.inst, self.phases, self.case, self.injected, self.ki, self.ki_phase = cls, inst, [], None, None, False, -1


def shorten(x, n=160):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + "..."


class Judge:
    def __init__(self, sc, obs):
        self.sc, self.obs, self.v = sc, obs, []
        self.stats = collections.Counter()

    def bad(self, prop, cls, msg):
        self.v.append({"prop": prop, "class": cls, "msg": shorten(msg, 600)})

    # -- reading what happened

    def read_records(self):
        raw = self.obs["results"]
        if raw is None:
            return None
        try:
            text = raw.decode("utf-8")
        except UnicodeDecodeError as e:
            self.bad("C14", "results-unreadable", f"results are not UTF-8: {e}")
            return None
        recs = []
        lines = text.split("\n")
        if lines[-1] != "":
            self.bad("C14", "results-unreadable", "results end in the middle of a line")
            return None
        for line in lines[:-1]:
            try:
                r = json.loads(line)
                if not isinstance(r["nodeid"], str) or r["outcome"] not in ("passed", "failed", "error", "skipped"):
                    raise ValueError("nodeid or outcome")
                if not isinstance(r["stdout"], str) or not isinstance(r["stderr"], str) or not isinstance(r["duration_ms"], (int, float)):
                    raise ValueError("field type")
                json.dumps(r, ensure_ascii=False).encode("utf-8")
            except Exception as e:
                self.bad("C14", "results-unreadable", f"unreadable record: {e!r}: {line[:200]!r}")
                return None
            recs.append(r)
        return recs

    def segment(self):
        """Cut the event log into executions of test cases; also checks their shape."""
        execs, cur, imports, phase = [], None, {}, None
        for e in self.obs["events"]:
            k = e[0]
            if k == "child":
                # a process a test forked may leave that test, through its teardown, and nothing more
                if e[1] == "start" and e[2] != "teardown":
                    self.bad("C16", "executed-twice", f"a process forked by a test went on to run {e[2]} {e[3]} of {e[5]}")
                continue
            if k == "start":
                _, kind, what, inst, cls, kwargs = e
                if kind == "import":
                    imports[what] = imports.get(what, 0) + 1
                    phase = cur = None
                    continue
                static = inst is None and (what in self.static_uids if kind == "body" else (kind, what) in self.hooks)
                attach = cur is not None and ((inst is not None and inst == cur.inst) or (static and cur.inst is not None and not any(p["kind"] == kind and (kind == "body" or p["uid"] == what) for p in cur.phases)))
                if not attach:
                    if inst is not None and inst in self.closed_inst:
                        self.bad("C16", "interleaved", f"{kind} {what} ran on instance {inst} of {cls} after another test case had started")
                    cur = Exec(cls, inst)
                    if inst is not None:
                        self.closed_inst.add(inst)
                    execs.append(cur)
                phase = {"kind": kind, "uid": what, "kwargs": kwargs, "done": False}
                cur.phases.append(phase)
            elif k == "end":
                _, kind, what = e
                if kind == "import":
                    imports[what] = imports.get(what, 0) + 1000
                elif phase is None or phase["kind"] != kind or phase["uid"] != what or phase["done"]:
                    self.bad("C16", "interleaved", f"{kind} {what} ended while {phase and (phase['kind'], phase['uid'])} was running")
                else:
                    phase["done"] = True
            elif k == "inject":
                if e[2] is not None:
                    self.import_injected = next((f["path"] for f in self.sc["files"] if f["path"] == e[2]), None)
                elif cur is not None:
                    cur.injected = (len(cur.phases) - 1, e[1])
                    if e[1] == "KeyboardInterrupt":
                        cur.ki, cur.ki_phase = True, len(cur.phases) - 1
            elif k == "ki":
                self.ki_raised = True
                if cur is not None:
                    cur.ki, cur.ki_phase = True, len(cur.phases) - 1
        self.imports = imports
        return execs

    # -- the judgement

    def run(self):
        sc, obs = self.sc, self.obs
        self.closed_inst, self.import_injected, self.ki_raised = set(), None, False
        classes = [c for f in sc["files"] for c in f["items"] + ([f["helper"]["cls"]] if f["helper"] and f["helper"].get("cls") else []) if c["kind"] == "cls"]
        self.hooks = {(k, c["uid"]) for c in classes for k in c.get("hook", {})}
        self.static_uids = {m["uid"] for c in classes for m in c["methods"] if m["kind"] == "fn" and m["style"] in ("static", "class")}
        if obs["hang"]:
            self.bad("C14", "hang", "the worker did not end")
            return self.v
        execs = self.segment()
        status = obs["status"]
        inj = sc.get("inject")
        ki = self.ki_raised or any(e[0] == "inject" and e[1] == "KeyboardInterrupt" for e in obs["events"])
        # an exception that teardown raises takes the place of the interrupt that ended the body
        late = [x for x in execs if x.ki and x.phases[-1]["kind"] == "teardown" and not x.phases[-1]["done"] and x.ki_phase != len(x.phases) - 1]
        if ki and late:
            if status not in (0, 1):
                return self.v
        elif ki:
            self.stats["interrupted"] += 1
            if self.ki_raised or inj["where"] == "test":
                if status in (0, 1):
                    self.bad("C14", "interrupt-swallowed", f"a keyboard interrupt in a test file left the worker with status {status}")
                return self.v
            if status not in (0, 1):
                return self.v
            # swallowed below the worker (a traceback being formatted): then everything has to be there
        elif status not in (0, 1):
            self.bad("C14", "worker-died", f"the worker ended with status {status}: {shorten(obs.get('died') or '', 300)}")
            return self.v
        n0 = len(self.v)
        recs = self.read_records()
        if recs is None:
            if len(self.v) == n0:
                self.bad("C14", "no-results", f"status {status} but no results file")
            return self.v
        self.stats["completed"] += 1
        self.judge_files(recs, execs, status)
        self.judge_real_streams(execs)
        return self.v

    def judge_files(self, recs, execs, status):
        sc = self.sc
        expected, loose = {}, set()
        failed_import = {}
        for f in sc["files"]:
            broken = f["imp"] is not None
            started = self.imports.get(f["path"], 0)
            if self.import_injected and self.import_injected == f["path"]:
                broken = True
            if broken:
                failed_import[f["path"]] = f
            else:
                for c in spec.cases_of(sc, f):
                    if c.loose:
                        loose.add(c.base)
                        c.nodeid = c.base
                    expected.setdefault(c.nodeid, []).append(c)
        byid = collections.defaultdict(list)
        for r in recs:
            base = r["nodeid"].split("[")[0]
            byid[base if base in loose else r["nodeid"]].append(r)
        for nid, cs in expected.items():
            have = len(byid.get(nid, []))
            if have != 0 and have < len(cs):
                self.bad("C14", "record-missing", f"{have} records for the {len(cs)} cases of {nid}")
            elif have == 0:
                self.bad("C14", "record-missing", f"no record for {nid}")
            elif have > len(cs):
                self.bad("C14", "record-twice", f"{have} records for {nid}")
        for nid in byid:
            if nid in expected:
                continue
            owner = next((p for p in failed_import if nid.startswith(p + "::")), None)
            if owner is None:
                self.bad("C14", "record-invented", f"a record for {nid}, which is no test case of the files")
        for p, f in failed_import.items():
            mine = [r for r in recs if r["nodeid"].startswith(p + "::")]
            if len(mine) != 1 or mine[0]["outcome"] != "error":
                self.bad("C14", "import-error-record", f"{p} cannot be imported and has {len(mine)} records: {[(r['nodeid'], r['outcome']) for r in mine][:4]}")
                continue
            r = mine[0]
            tb = ((r.get("error") or {}).get("traceback")) or ""
            name = r.get("error_type")
            exc = f["imp"].get("exc") if f["imp"] else self.sc["inject"]["exc"]
            if not name or not tb or (exc and exc in spec.EXCS and name != spec.EXCS[exc][1] and not self.import_injected):
                self.bad("C15", "import-error-info", f"{p}: type {name!r}, traceback {shorten(tb)!r}, want {exc}")
        # skipped cases
        live = []
        for nid, cs in expected.items():
            for c, r in zip(cs, byid.get(nid, [])):
                if c.skip:
                    if r["outcome"] != "skipped":
                        self.bad("C15", "skip-ignored", f"{nid} carries a skip mark and is recorded {r['outcome']}")
                    else:
                        reason = ((r.get("error") or {}).get("reason")) or ""
                        if not any(same_text(w, reason) for w in c.reasons):
                            self.bad("C15", "skip-reason", f"{nid}: reason {reason!r}, want {c.reasons!r}")
                        if r["stdout"] or r["stderr"]:
                            self.bad("C17", "skip-output", f"{nid} is skipped and has output {shorten(r['stdout'] + r['stderr'])!r}")
                else:
                    if r["outcome"] == "skipped":
                        self.bad("C15", "skip-invented", f"{nid} carries no skip mark and is recorded skipped")
                    live.append((c, r))
        bad_record = any(r["outcome"] in ("failed", "error") for r in recs)
        if (status == 1) != bad_record:
            self.bad("C15", "exit-status", f"status {status} although {'some' if bad_record else 'no'} record is failed or error")
        self.match(live, expected, execs)

    def key(self, c):
        return (c.cls and self.clsname(c), tuple((k, u) for k, u, _ in c.phases), json.dumps(c.kwargs, sort_keys=True))

    def clsname(self, c):
        return c.cls

    def match(self, live, expected, execs):
        """Every execution belongs to one case; compare what it did with that case's record."""
        open_ = collections.defaultdict(list)
        for c, r in live:
            open_[self.key(c)].append((c, r))
        skipped = collections.Counter(self.key(c) for cs in expected.values() for c in cs if c.skip)
        prefixes, pairs = [], []
        for x in execs:
            kinds = [(p["kind"], p["uid"]) for p in x.phases]
            if len(set(kinds)) != len(kinds):
                self.bad("C16", "phase-twice", f"{x.cls or ''} ran {kinds} in one test case")
                continue
            body = next((p for p in x.phases if p["kind"] == "body"), None)
            if body is None:
                prefixes.append(x)
                continue
            hit = None
            for key, cands in open_.items():
                if not cands or (x.inst is not None and key[0] != x.cls) or (x.inst is None and key[0] is not None and body["uid"] not in self.static_uids):
                    continue
                if ("body", body["uid"]) in key[1] and key[2] == json.dumps(body["kwargs"], sort_keys=True):
                    hit = key
                    break
            if hit is None:
                same = [k for k in skipped if ("body", body["uid"]) in k[1]]
                known = [k for k in list(open_) if ("body", body["uid"]) in k[1]]
                if same and not known:
                    self.bad("C15", "skipped-executed", f"the body {body['uid']} of a skipped test ran")
                elif known and not any(k[2] == json.dumps(body["kwargs"], sort_keys=True) for k in known):
                    self.bad("C16", "wrong-parameters", f"body {body['uid']} ran with {body['kwargs']}, which is no case of it left: {[k[2] for k in known][:6]}")
                else:
                    self.bad("C16", "executed-twice", f"body {body['uid']} ({x.cls}, {body['kwargs']}) ran more often than it has cases")
                continue
            c, r = open_[hit].pop(0) if len(open_[hit]) == 1 else self.best(open_[hit], x)
            pairs.append((c, r, x))
        # executions that ended before their body
        for x in sorted(prefixes, key=lambda x: x.injected is None):
            kinds = set((p["kind"], p["uid"]) for p in x.phases)
            fits = [(key, i) for key, cands in open_.items() if key[0] == x.cls and kinds <= set(key[1]) for i in range(len(cands))]
            if x.injected:
                fits.sort(key=lambda f: open_[f[0]][f[1]][1].get("error_type") != x.injected[1])
            if fits:
                key, i = next((f for f in fits if self.quiet(*open_[f[0]][f[1]], x)), fits[0])
                pairs.append((*open_[key].pop(i), x))
            elif any(k[0] == x.cls for k in skipped):
                self.bad("C15", "skipped-executed", f"{[p['kind'] for p in x.phases]} of {x.cls} ran although no unskipped case of it is left")
            else:
                self.bad("C16", "executed-twice", f"{[p['kind'] for p in x.phases]} of {x.cls} ran more often than it has cases")
        for key, cands in open_.items():
            for c, r in cands:
                if c.style in ("async", "generator", "asyncgen"):
                    self.not_run(c, r)
                elif r["outcome"] == "passed":
                    self.bad("C15", "passed-unexecuted", f"{c.nodeid} is recorded passed and never executed")
                    self.bad("C16", "not-executed", f"{c.nodeid} never executed")
                else:
                    self.bad("C16", "not-executed", f"{c.nodeid} never executed ({r['outcome']}, {shorten(r.get('error'))})")
        for c, r, x in pairs:
            self.compare(c, r, x)
        self.stats["executed"] += len(pairs)

    def quiet(self, c, r, x):
        n = len(self.v)
        self.compare(c, r, x)
        ok = len(self.v) == n
        del self.v[n:]
        return ok

    def best(self, cands, x):
        """Of several cases an execution may belong to, the one whose record fits it."""
        return cands.pop(next((i for i, (c, r) in enumerate(cands) if self.quiet(c, r, x)), 0))

    def not_run(self, c, r):
        if r["outcome"] not in ("failed", "error"):
            self.bad("C15", "passed-unexecuted", f"{c.nodeid} ({c.style}) is recorded {r['outcome']} although its body never ran")

    def compare(self, c, r, x):
        nid = c.nodeid
        got = [(p["kind"], p["uid"]) for p in x.phases]
        st = spec.Streams()
        excs, want_next, ended = [], [], None
        ran = {(p["kind"], p["uid"]): i for i, p in enumerate(x.phases)}
        ran_kinds = {p["kind"] for p in x.phases}
        over = False
        inj_at = x.injected[0] if x.injected else None
        plan, failed = [], None
        for kind, uid, acts in c.phases:
            if kind == "body" and c.style in ("async", "generator", "asyncgen") and "body" not in ran_kinds:
                if failed is None:
                    failed = "unsupported"
                continue
            if failed in ("init", "setup") and kind in ("setup", "body"):
                continue
            if kind == "teardown" and failed == "init":
                continue
            if kind == "teardown" and failed == "setup" and "teardown" not in ran_kinds:
                continue
            if kind == "teardown" and over:
                continue
            plan.append((kind, uid))
            i = ran.get((kind, uid))
            if i is None:
                failed = failed or kind
                excs.append(None)
                continue
            if inj_at == i:
                spec.run_acts(acts, st)
                e = {"InjectedAssert": ("InjectedAssert", True)}.get(x.injected[1], (x.injected[1], False))
            else:
                e = spec.run_acts(acts, st)
                done = x.phases[i]["done"]
                if done and e is not None or not done and e is None:
                    self.bad("C16", "body-cut-short", f"{nid}: {kind} {'ran past its exception' if done else 'did not run to its end'}")
                    return
            if e is not None:
                excs.append(e)
                failed = failed or kind
                over = over or kind == "teardown"
        if got != plan:
            def fault():
                if len([1 for k, _ in got if k == "teardown"]) != len([1 for k, _ in plan if k == "teardown"]):
                    return "teardown"
                return "lifecycle"
            self.bad("C16", fault(), f"{nid}: ran {got}, should run {plan}")
            return
        # outcome
        outcome, name = r["outcome"], r.get("error_type")
        tb = ((r.get("error") or {}).get("traceback")) or ""
        if failed is None:
            if outcome != "passed":
                self.bad("C15", "outcome", f"{nid} ran to its end and is recorded {outcome} ({shorten(tb[-300:])})")
            elif r.get("error"):
                self.bad("C15", "outcome-info", f"{nid} passed and has error {shorten(r['error'])}")
        else:
            if outcome not in ("failed", "error"):
                self.bad("C15", "outcome", f"{nid} ended with {excs} and is recorded {outcome}")
            else:
                real = [e for e in excs if e]
                if failed == "unsupported":
                    pass
                elif not any((outcome == "failed") == a and name == t for t, a in real):
                    self.bad("C15", "outcome", f"{nid} ended with {excs} and is recorded {outcome} with type {name!r}")
                elif name not in tb:
                    self.bad("C15", "traceback", f"{nid}: no traceback of the {name}: {shorten(tb)!r}")
                if not name or not tb:
                    self.bad("C15", "traceback", f"{nid}: type {name!r}, traceback {shorten(tb)!r}")
        # output
        if st.vague:
            return
        for k, want in (("stdout", "".join(st.out)), ("stderr", "".join(st.err))):
            text = r[k]
            if x.injected:
                # how far it got is not known to the line, but it is its own text
                mine = set(re.findall(r"\[\d+\]", json.dumps([a for _, _, acts in c.phases for a in acts])))
                extra = [t for t in re.findall(r"\[\d+\] ", text) if t.strip() not in mine]
                if extra:
                    self.bad("C17", "foreign-output", f"{nid} {k}: {extra[:5]} written by something else")
            elif not same_text(want, text):
                mine = set(re.findall(r"\[\d+\]", want))
                extra = [t for t in re.findall(r"\[\d+\]", text) if t not in mine]
                self.bad("C17", "foreign-output" if extra else "output", f"{nid} {k}: recorded {shorten(text)!r} ({len(text)}), written {shorten(want)!r} ({len(want)})")

    def judge_real_streams(self, execs):
        obs = self.obs
        if not obs["streams_back"]:
            self.bad("C17", "streams-not-restored", "the real standard streams are not back in place at the end")
        st = spec.Streams()
        for f in self.sc["files"]:
            if self.imports.get(f["path"]) is None:
                continue
            if not (f["imp"] and f["imp"].get("at") == "start"):
                spec.run_acts(f["pre"], st)
        if self.import_injected:
            return
        # the worker may say things of its own there, but no test's output belongs there
        for k, want in (("real_out", "".join(st.out)), ("real_err", "".join(st.err))):
            toks = set(re.findall(r"\[\d+\]", want))
            extra = [t for t in re.findall(r"\[\d+\] ", obs[k]) if t.strip() not in toks]
            if extra:
                self.bad("C17", "real-streams", f"{k} of the worker: {shorten(obs[k])!r}, written while importing: {shorten(want)!r}")
