"""Simulations of rtest.raises: python3 guards.py JOB.json

A scenario is a set of tasks (generators) made of guarded blocks, handlers, loops and raising statements, a scheduler that picks
which task goes on at each yield and which exceptions it throws into waiting tasks, and injections: exceptions that strike
at a numbered point of the running code or on a line inside raises.py itself. It is run twice: with the real rtest.raises, and with every guarded block
written out as plain try/except. What the tasks see has to be the same.
"""
import collections
import contextlib
import hashlib
import importlib
import json
import random
import re
import sys

import group


class Base(BaseException):
    pass


class Custom(Exception):
    pass


class SubValue(ValueError):
    pass


class SubSub(SubValue, KeyError):
    pass


class SubAssert(AssertionError):
    pass


class SubInterrupt(KeyboardInterrupt):
    pass


class Text(Exception):
    def __str__(self):
        return "shown " + "/".join(map(str, self.args[::-1]))


class BadStr(Exception):
    def __str__(self):
        raise Custom("no text")


class Falsy(ValueError):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


class Equal(ValueError):
    def __eq__(self, other):
        return True

    __hash__ = ValueError.__hash__


class Duck(Exception):
    """Looks like a group and has a cause."""


TYPES = {t.__name__: t for t in [
    ValueError, KeyError, TypeError, OSError, FileNotFoundError, AssertionError, StopIteration, GeneratorExit, KeyboardInterrupt, SystemExit, Exception,
    BaseException, LookupError, ArithmeticError, ZeroDivisionError, MemoryError, RuntimeError, UnicodeError, TimeoutError, Base, Custom, SubValue, SubSub,
    SubAssert, SubInterrupt, Text, BadStr, Falsy, Equal, Duck]}
TYPES["Group"] = ExceptionGroup
TYPES["BaseGroup"] = BaseExceptionGroup
TYPES["Group1"] = ExceptionGroup
TYPES["BaseGroup1"] = BaseExceptionGroup
GROUPS = ("Group", "Group1", "BaseGroup1", "BaseGroup")
RAISED = [n for n in TYPES if n not in ("BaseGroup",)]
TEXTS = ["", "alpha", "alpha beta", "Beta", "a.c", "abc", "line\nbeta", "(x", "5", "é", "tail\n", "no match here", "[1] beta", "LINE\nBETA", " alpha", "x" * 5000 + "alpha"]
PATTERNS = ["", "alpha", "beta", "^beta", "^alpha", "beta$", "^a.c$", "a\\.c", "(?i)beta", "(?m)^beta", ".*beta", "\\d", "^$", "no", "é", "\\(x", "x|alpha", "(?s)line.*beta", "shown", "'alpha'", "\\Z", "tail$", "line.beta", "line.*beta", "ALPHA", "alpha beta ", " ", "alpha|", "^line$"]


# ---- generation -------------------------------------------------------------------------------------------------------------

class Gen:
    def __init__(self, r):
        self.r, self.k = r, 0

    def p(self, pct):
        return self.r.randrange(100) < pct

    def pick(self, xs):
        return xs[self.r.randrange(len(xs))]

    def next(self):
        self.k += 1
        return self.k

    def types(self):
        if self.p(30):
            return [self.pick(list(TYPES)) for _ in range(self.pick([1, 2, 2, 3]))]
        return self.pick(["ValueError", "ValueError", "KeyError", "Exception", "BaseException"] + list(TYPES))

    def match(self):
        if self.p(55):
            return None
        return [self.pick(PATTERNS), self.pick(["str", "str", "re", "rei"])]

    def exc(self, near=None):
        if near and self.p(70):
            t = self.pick(near)
            if t in GROUPS or self.p(3):
                return self.pick(["Group", "Group1", "Group1:" + self.pick(near), "Group1:" + self.pick(near)])
            return t
        return self.pick(RAISED)


def gen_block(g, sc, depth, near, inloop):
    out = []
    for _ in range(g.pick([1, 1, 2, 2, 3])):
        k = g.r.randrange(100)
        if depth <= 0 and k >= 34:
            k = g.r.randrange(34)
        if k < 12:
            out.append(["yield"])
        elif k < 16:
            out.append(["note", g.next()])
        elif k < 30:
            out.append(["raise", g.exc(near), g.pick(TEXTS), g.pick(["obj"] * 6 + ["class", "from", "same"])])
        elif k < 32:
            out.append([g.pick(["return", "break", "continue"] if inloop else ["return"])])
        elif k < 34:
            out.append(["suppress"])
        elif k < 74:
            ctx = g.r.randrange(len(sc["ctxs"])) if sc["ctxs"] and g.p(45) else None
            c = sc["ctxs"][ctx] if ctx is not None else {"types": g.types(), "match": g.match()}
            ts = c["types"] if isinstance(c["types"], list) else [c["types"]]
            sub = gen_block(g, sc, depth - 1, near + ts, inloop)
            out.append(["guard", g.next(), g.pick(["with"] * 5 + ["stack", "late", "multi"]), ctx, None if ctx is not None else c, sub])
        elif k < 88:
            out.append(["try", g.next(), g.pick([["BaseException"], ["Exception"], ["AssertionError"], ["ValueError", "KeyError"]]),
                        gen_block(g, sc, depth - 1, near, inloop), g.pick(["go", "go", "go", "reraise"])])
        elif k < 94:
            out.append(["loop", g.next(), g.pick([1, 2, 3]), gen_block(g, sc, depth - 1, near, True)])
        else:
            out.append(["finally", g.next(), gen_block(g, sc, depth - 1, near, inloop), gen_block(g, sc, 0, near, False) if g.p(20) else [["note", g.next()]]])
    return out


def scenario(prop, seed, index):
    g = Gen(random.Random(f"{prop}/guards/{seed}/{index}"))
    sc = {"ctxs": [{"types": g.types(), "match": g.match()} for _ in range(g.pick([0, 1, 1, 2, 3]))], "tasks": [], "steps": [], "points": [], "line": None}
    for _ in range(g.pick([1, 2, 2, 3, 4])):
        near = [t for c in sc["ctxs"] for t in (c["types"] if isinstance(c["types"], list) else [c["types"]])]
        sc["tasks"].append(gen_block(g, sc, g.pick([1, 2, 3]), near, False))
    for _ in range(g.pick([10, 20, 30])):
        throw = None
        if g.p(18):
            throw = ["throw", g.exc(near), g.pick(TEXTS)]
        elif g.p(4):
            throw = ["close"]
        sc["steps"].append([g.r.randrange(len(sc["tasks"])), throw])
    if g.p(55):
        sc["points"] = sorted([g.r.randrange(1, 40), g.pick(["KeyboardInterrupt", "SystemExit", "MemoryError", "Base", g.exc(near)]), g.pick(TEXTS)] for _ in range(g.pick([1, 1, 2])))
        sc["points"] = [p for i, p in enumerate(sc["points"]) if p[0] not in [q[0] for q in sc["points"][:i]]]
    if g.p(35):
        sc["line"] = [g.r.randrange(1, 60), g.pick(["Base", "SubInterrupt", "KeyboardInterrupt", "SystemExit", "MemoryError"])]
    return sc


# ---- rendering --------------------------------------------------------------------------------------------------------------

def type_expr(ts):
    if isinstance(ts, list):
        return "(" + " ".join(f"T[{t!r}]," for t in ts) + ")"
    return f"T[{ts!r}]"


def match_expr(m):
    if m is None:
        return None
    return {"str": repr(m[0]), "re": f"re.compile({m[0]!r})", "rei": f"re.compile({m[0]!r}, re.I)"}[m[1]]


def ctx_expr(c, real):
    m = match_expr(c["match"])
    return f"{'raises' if real else 'Ref'}({type_expr(c['types'])}" + (f", match={m}" if m else "") + ")"


def lines(block, real, sc):
    out = []
    for s in block:
        out.append("P()")
        k = s[0]
        if k == "yield":
            out.append("yield 1")
        elif k == "note":
            out.append(f"log('note', {s[1]})")
        elif k == "raise":
            if s[3] == "class" and s[1] not in GROUPS and ":" not in s[1] and s[1] not in ("BadStr", "Duck"):
                out.append(f"raise T[{s[1]!r}]")
            elif s[3] == "from":
                out.append(f"raise E({s[1]!r}, {s[2]!r}) from E('ValueError', 'cause')")
            elif s[3] == "same":
                out.append("raise again()")
            else:
                out.append(f"raise E({s[1]!r}, {s[2]!r})")
        elif k in ("return", "break", "continue"):
            out.append(k)
        elif k == "suppress":
            out.append("with contextlib.suppress(ValueError): raise E('ValueError', 'alpha')")
        elif k == "try":
            out += ["try:", *["    " + l for l in lines(s[3], real, sc)], f"except {type_tuple(s[2])} as x{s[1]}:", f"    log('caught', {s[1]}, x{s[1]})"]
            if s[4] == "reraise":
                out.append("    raise")
        elif k == "loop":
            out += [f"for _ in range({s[2]}):", *["    " + l for l in lines(s[3], real, sc)]]
        elif k == "finally":
            out += ["try:", *["    " + l for l in lines(s[2], real, sc)], "finally:", *["    " + l for l in lines(s[3], real, sc)]]
        else:
            out += guard(s, real, sc)
    return out


def type_tuple(ts):
    return "(" + " ".join(f"T[{t!r}]," for t in ts) + ")"


def guard(s, real, sc):
    _, n, style, ctx, c, body = s
    make = f"ctx[{ctx}]" if ctx is not None else ctx_expr(c, real)
    inner = ["    " + l for l in lines(body, real, sc)]
    out = ["G()"]
    if real and sc["line"]:
        make = f"W(lambda: {make})"
    after = [f"log('after', {n}, c{n}.value)"]
    if style == "late":
        after += ["P()", "yield 2", f"log('late', {n}, c{n}.value)"] if ctx is None else []
    if real:
        if style == "stack":
            out += ["with contextlib.ExitStack() as stack:", f"    c{n} = stack.enter_context({make})", f"    B({n})", *inner]
        elif style == "multi":
            out += [f"with contextlib.nullcontext() as _, {make} as c{n}, contextlib.nullcontext():", f"    B({n})", *inner]
        else:
            out += [f"with {make} as c{n}:", f"    B({n})", *inner]
        return out + after
    return out + [f"c{n} = {make}", "S('enter')", f"s{n} = 0", "try:", "    try:", f"        B({n})", *["    " + l for l in inner],
                  f"    except BaseException as x{n}:", f"        s{n} = 1", "        S('exit')", f"        if not c{n}.judge(x{n}):", "            raise",
                  "finally:", f"    if not s{n}:", "        S('exit')", "        raise AssertionError('DID NOT RAISE')"] + after


def render(sc, real):
    out = [f"ctx = [{', '.join(ctx_expr(c, real) for c in sc['ctxs'])}]"]
    for i, t in enumerate(sc["tasks"]):
        out += [f"def task{i}():", *["    " + l for l in lines(t, real, sc)], "    yield 0"]
    return "\n".join(out) + "\n"


# ---- running ----------------------------------------------------------------------------------------------------------------

class Ref:
    """What a guarded block is to do."""

    def __init__(self, w, expected, match=None):
        self.w, self.expected, self.match, self.value = w, expected, match, None

    def judge(self, e):
        if not isinstance(e, self.expected):
            return False
        if self.match is not None and isinstance(e, AssertionError) and id(e) not in self.w.names and self.w.vague is None:
            # the words in which rtest.raises itself complains are not specified
            self.w.vague = len(self.w.events)
        if self.match is not None and not re.search(self.match, str(e)):
            raise AssertionError("pattern did not match")
        self.value = e
        return True


class World:
    """One run of a scenario: all the tasks can see."""

    def __init__(self, sc, real, raises=None, file=None, struck=None):
        self.sc, self.real, self.events, self.names, self.keep = sc, real, [], {}, []
        self.npoint, self.points = 0, {p[0]: p for p in sc["points"]}
        self.raises, self.file = raises, file
        self.struck = struck  # reference run: where a line of raises.py was struck
        self.where, self.phase, self.entered, self.exited = None, None, 0, 0
        self.counts = collections.Counter()
        self.last, self.task, self.vague, self.over = None, None, None, False

    def name(self, e):
        if e is None:
            return None
        if id(e) in self.names:
            return self.names[id(e)]
        if type(e) is AssertionError or isinstance(e, AssertionError):
            return "an assertion failure"
        return f"{type(e).__name__}: {e.args!r}"

    def register(self, e, label):
        self.names[id(e)] = f"{label}{len(self.keep)}"
        self.keep.append((e, e.args, type(e)))
        return e

    def make(self, t, text):
        if t == "Group":
            e = ExceptionGroup(text, [ValueError("alpha"), KeyError("beta")])
        elif t.startswith("Group1") or t == "BaseGroup1":
            # a group of a single exception, possibly of an expected type
            inner = t.partition(":")[2]
            one = ValueError("alpha") if t == "Group1" else KeyboardInterrupt() if t == "BaseGroup1" else self.one(inner, text)
            e = BaseExceptionGroup(text, [one])
        elif t == "Duck":
            e = Duck(text)
            e.exceptions = e.args_ = (ValueError("alpha"),)
        elif t == "Text":
            e = Text(text, "arg")
        else:
            e = TYPES[t](text)
        e.__notes__ = ["kept"]
        self.last = self.register(e, t)
        return e

    def one(self, t, text):
        return ValueError(text) if t in GROUPS or ":" in t else TYPES[t](text)

    def again(self):
        return self.last if self.last is not None else self.make("ValueError", "alpha")

    def log(self, *e):
        if self.over:
            return
        self.events.append([self.task, *[self.name(x) if isinstance(x, BaseException) else x for x in e]])

    def point(self):
        self.npoint += 1
        p = self.points.get(self.npoint)
        if p:
            self.counts[f"fault:{p[1]} at a point"] += 1
            self.log("point", self.npoint)
            raise self.make(p[1], p[2])

    def header(self):
        """A guard is about to be entered."""
        self.entered += 1

    def body(self, n):
        self.counts["guards"] += 1
        self.log("body", n)

    def strike(self, phase):
        """In the reference run: the fault on a line of raises.py, which struck in the real run."""
        if phase == "exit":
            self.exited += 1
        if self.struck == (phase, self.entered if phase == "enter" else self.exited):
            self.log("line", phase)
            raise self.register(TYPES[self.sc["line"][1]]("line"), "line")

    def run(self):
        sc = self.sc
        ns = {"T": TYPES, "E": self.make, "P": self.point, "log": self.log, "G": self.header, "B": self.body, "S": self.strike, "W": lambda make: Between(self, make), "again": self.again, "re": re,
              "contextlib": contextlib, "raises": self.raises, "Ref": lambda *a, **k: Ref(self, *a, **k)}
        src = render(sc, self.real)
        exec(compile(src, "<tasks>", "exec"), ns)
        tasks = [ns[f"task{i}"]() for i in range(len(sc["tasks"]))]
        live = set(range(len(tasks)))
        started = set()
        tracer = Lines(self) if self.real and sc["line"] else None
        budget = 0
        steps = list(sc["steps"])
        while live and budget < 400:
            budget += 1
            i, fault = steps.pop(0) if steps else (min(live), None)
            if i not in live:
                continue
            self.task = i
            g = tasks[i]
            try:
                if tracer:
                    sys.settrace(tracer.call)
                try:
                    if fault and i in started:
                        if fault[0] == "close":
                            self.counts["fault:task closed"] += 1
                            self.log("close")
                            g.close()
                            self.log("closed")
                            live.discard(i)
                        else:
                            self.counts[f"fault:{fault[1]} thrown into a waiting task"] += 1
                            self.log("throw", fault[1])
                            r = g.throw(self.make(fault[1], fault[2]))
                            self.log("yielded", r)
                    else:
                        started.add(i)
                        r = next(g)
                        self.log("yielded", r)
                finally:
                    sys.settrace(None)
            except StopIteration as e:
                if id(e) in self.names:
                    self.log("died", e)
                else:
                    self.log("done")
                live.discard(i)
            except BaseException as e:
                c = e.__cause__
                self.log("died", e, c if id(e) in self.names and id(c) in self.names else None)
                live.discard(i)
        for k, (e, args, t) in enumerate(self.keep):
            if e.args != args or type(e) is not t or getattr(e, "__notes__", ["kept"]) != ["kept"]:
                self.log("altered", e)
        self.over = True  # what unfinished tasks do when they are thrown away does not count
        return self


class Lines:
    """Raises at the n-th line executed in raises.py while a block is entered or left."""

    def __init__(self, w):
        self.w, self.n = w, w.sc["line"][0]

    def call(self, frame, event, arg):
        if event != "call" or frame.f_code.co_filename != self.w.file or self.w.phase is None:
            return None
        return self.line if self.n > 0 else None

    def line(self, frame, event, arg):
        if event != "line" or self.n <= 0 or self.w.phase is None:
            return self.line
        self.n -= 1
        if self.n == 0:
            sys.settrace(None)
            w = self.w
            w.counts[f"fault:{w.sc['line'][1]} on a line of raises.py"] += 1
            w.where = w.phase
            w.log("line", w.phase[0])
            raise w.register(TYPES[w.sc["line"][1]]("line"), "line")
        return self.line


class Between:
    """The real context manager, with a note of when it is being entered and left."""

    def __init__(self, w, make):
        self.w, self.make = w, make

    def __enter__(self):
        self.w.phase = ("enter", self.w.entered)
        try:
            self.cm = self.make()
            return self.cm.__enter__()
        finally:
            self.w.phase = None

    def __exit__(self, *a):
        self.w.exited += 1
        self.w.phase = ("exit", self.w.exited)
        try:
            return self.cm.__exit__(*a)
        finally:
            self.w.phase = None


def load():
    for m in [m for m in sys.modules if m == "rtest" or m.startswith("rtest.")]:
        del sys.modules[m]
    m = importlib.import_module("rtest.raises")
    return sys.modules["rtest"].raises, m.__file__


def preload():
    load()


def run(sc, base, n):
    raises, file = load()
    w = World(sc, True, raises, file).run()
    ref = World(sc, False, struck=w.where).run()
    return {"hang": False, "status": 0, "events": w.events, "results": None, "reference": ref.events, "counts": w.counts, "vague": ref.vague}


def judge(sc, obs):
    st = collections.Counter(obs["counts"])
    st["completed" if obs["counts"]["guards"] else "no guard entered"] += 1
    a, b = obs["events"], obs["reference"]
    if obs["vague"] is not None:
        st["decided up to a complaint of a guard that another guard's pattern judged"] += 1
        a, b = a[:obs["vague"]], b[:obs["vague"]]
    if a == b:
        return [], st
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    got, want = [x[i] if i < len(x) else None for x in (a, b)]
    kind = [x[1] if x else "nothing" for x in (want, got)]
    cls = "other-value" if kind == ["after", "after"] else "accepted" if kind[1] in ("after", "late") else "not-accepted" if kind[0] in ("after", "late") else "altered" if "altered" in kind else "other-exception"
    return [{"prop": "C20", "class": cls, "msg": f"event {i}: got {got}, want {want} (task, event, ...)"}], st


def clean(sc):
    n = len(sc["tasks"])
    if not n:
        raise ValueError
    k = len(sc["ctxs"])

    def fix(block):
        for s in block:
            if s[0] == "guard" and s[3] is not None and s[3] >= k:
                raise ValueError
            for x in s:
                if isinstance(x, list) and x and isinstance(x[0], list):
                    fix(x)
    for t in sc["tasks"]:
        fix(t)
    sc["steps"] = [s for s in sc["steps"] if s[0] < n]
    return sc


KEYS = ("ctxs", "tasks", "steps", "points", "line")


def shrink(x):
    """Smaller blocks and lists."""
    if isinstance(x, list):
        for i in range(len(x)):
            yield x[:i] + x[i + 1:]
        for i, y in enumerate(x):
            if isinstance(y, list):
                if y and isinstance(y[0], str):
                    for sub in y:
                        if isinstance(sub, list) and sub and isinstance(sub[0], list):
                            yield x[:i] + sub + x[i + 1:]
                for z in shrink_stmt(y):
                    yield x[:i] + [z] + x[i + 1:]


def shrink_stmt(s):
    if s and isinstance(s[0], str):
        for i, sub in enumerate(s):
            if isinstance(sub, list) and sub and isinstance(sub[0], list):
                for z in shrink(sub):
                    if z:
                        yield s[:i] + [z] + s[i + 1:]
    else:
        yield from (z for z in shrink(s) if z)


def smaller(sc):
    if sc["line"]:
        yield {**sc, "line": None}
        for n in {1, sc["line"][0] // 2, sc["line"][0] - 1}:
            if 0 < n < sc["line"][0]:
                yield {**sc, "line": [n, sc["line"][1]]}
    for k in ("points", "steps"):
        for i in range(len(sc[k])):
            yield {**sc, k: sc[k][:i] + sc[k][i + 1:]}
    for i, s in enumerate(sc["steps"]):
        if s[1]:
            yield {**sc, "steps": sc["steps"][:i] + [[s[0], None]] + sc["steps"][i + 1:]}
    for i, t in enumerate(sc["tasks"]):
        for z in shrink(t):
            if z:
                yield {**sc, "tasks": sc["tasks"][:i] + [z] + sc["tasks"][i + 1:]}
    for i in range(len(sc["tasks"])):
        if len(sc["tasks"]) > 1:
            yield {**sc, "tasks": sc["tasks"][:i] + [[["note", 0]]] + sc["tasks"][i + 1:]}
    for i, c in enumerate(sc["ctxs"]):
        if c["match"]:
            yield {**sc, "ctxs": sc["ctxs"][:i] + [{**c, "match": None}] + sc["ctxs"][i + 1:]}


def sources(sc):
    return {"tasks.py": render(sc, True), "reference.py": render(sc, False)}


if __name__ == "__main__":
    group.main(sys.modules[__name__])
