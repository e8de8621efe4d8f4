"""Scenarios for the Python worker: generation, rendering to Python source, and the reference model."""
import itertools

OUTS = ["plain line\n", "no newline", "\n", "tab\tand \\ backslash\n", "quote \" ' \n", "é漢😀\n", "\r\n", "nul \x00 \x07 \x1b[31m\n",
        "\u2028\u2029\x85\n", '{"nodeid": "x", "outcome": "passed"}\n', "a\rb\n", "  spaces  \n", "::[]%s{}\n", "trail   ", " ", "\n\n\n", "  \t\n"]
SURR = ["lone \ud800 surrogate\n", "\udcff\n"]
# name -> (expression raising it, exception type name, is an assertion failure)
EXCS = {
    "assert": ("assert 1 == 2", "AssertionError", True),
    "AssertionError": ("raise AssertionError('no')", "AssertionError", True),
    "SubAssert": ("raise _L.SubAssert('sub')", "SubAssert", True),
    "ValueError": ("raise ValueError('v')", "ValueError", False),
    "Empty": ("raise Exception", "Exception", False),
    "SystemExit0": ("raise SystemExit(0)", "SystemExit", False),
    "SystemExit1": ("raise SystemExit(1)", "SystemExit", False),
    "sys.exit": ("sys.exit()", "SystemExit", False),
    "sys.exit0": ("sys.exit(0)", "SystemExit", False),
    "exitmsg": ("sys.exit('message')", "SystemExit", False),
    "BaseExc": ("raise _L.Base('base')", "Base", False),
    "BaseException": ("raise BaseException('b')", "BaseException", False),
    "GeneratorExit": ("raise GeneratorExit", "GeneratorExit", False),
    "StopIteration": ("raise StopIteration(3)", "StopIteration", False),
    "MemoryError": ("raise MemoryError", "MemoryError", False),
    "OSError": ("open('/nonexistent/x')", "FileNotFoundError", False),
    "ZeroDivision": ("1 / 0", "ZeroDivisionError", False),
    "NameError": ("undefined_name", "NameError", False),
    "Recursion": ("_L.recurse()", "RecursionError", False),
    "Cancelled": ("raise asyncio.CancelledError", "CancelledError", False),
    "Group": ("raise ExceptionGroup('g', [ValueError(1), AssertionError(2)])", "ExceptionGroup", False),
    "BadStr": ("raise _L.BadStr('x')", "BadStr", False),
    "Surrogate": ("raise ValueError('bad \\ud800 text')", "ValueError", False),
    "Unicode": ("raise ValueError('é漢😀\\n\\x00\"')", "ValueError", False),
    "Chained": ("_L.chained()", "KeyError", False),
    "LooksAssert": ("raise _L.AssertionErrorLookalike('no')", "AssertionErrorLookalike", False),
    "SkipTest": ("raise unittest.SkipTest('s')", "SkipTest", False),
    "Timeout": ("raise TimeoutError('t')", "TimeoutError", False),
    "BrokenPipe": ("raise BrokenPipeError(32, 'p')", "BrokenPipeError", False),
    "Interrupted": ("raise InterruptedError(4, 'i')", "InterruptedError", False),
    "TypeError": ("len(5)", "TypeError", False),
    "CallError": ("(lambda a: a)()", "TypeError", False),
    "KeyError": ("{}['k']", "KeyError", False),
    "IndexError": ("[][0]", "IndexError", False),
    "AttributeError": ("object().nothing", "AttributeError", False),
    "RuntimeError": ("raise RuntimeError", "RuntimeError", False),
    "NotImplementedError": ("raise NotImplementedError('n')", "NotImplementedError", False),
    "UnicodeDecode": ("b'\\xff'.decode()", "UnicodeDecodeError", False),
    "UnicodeEncode": ("'\\ud800'.encode()", "UnicodeEncodeError", False),
    "StopAsync": ("raise StopAsyncIteration", "StopAsyncIteration", False),
    "EOFError": ("raise EOFError", "EOFError", False),
    "NoModule": ("import no_such_module_at_all", "ModuleNotFoundError", False),
    "ImportError": ("from os import no_such_name", "ImportError", False),
    "SyntaxError": ("exec('def x(:')", "SyntaxError", False),
    "Unbound": ("_unb = _unb", "UnboundLocalError", False),
    "Overflow": ("1e300 ** 2", "OverflowError", False),
    "Connection": ("raise ConnectionResetError(104, 'c')", "ConnectionResetError", False),
    "ChildProcess": ("os.waitpid(-1, 0)", "ChildProcessError", False),
    "Deprecation": ("raise DeprecationWarning('d')", "DeprecationWarning", False),
    "SubSystemExit": ("raise _L.Exit(0)", "Exit", False),
    "SystemExitNone": ("raise SystemExit", "SystemExit", False),
    "SystemExitBig": ("raise SystemExit(2 ** 70)", "SystemExit", False),
    "AssertEmpty": ("assert False", "AssertionError", True),
    "AssertTuple": ("assert 0, ('a', [1])", "AssertionError", True),
    "AssertFrom": ("raise AssertionError('outer') from ValueError('inner')", "AssertionError", True),
    "AssertContext": ("_L.while_handling()", "AssertionError", True),
    "AssertBoth": ("raise _L.Both('b')", "Both", True),
    "AssertBadStr": ("raise _L.BadAssert('b')", "BadAssert", True),
    "AssertUnit": ("unittest.TestCase().assertEqual([1], [2])", "AssertionError", True),
    "AssertLong": ("assert 0, 'x' * 100000", "AssertionError", True),
    "AssertNote": ("_L.noted()", "AssertionError", True),
    "AssertGroup": ("raise _L.AssertGroup('g', [ValueError(1)])", "AssertGroup", True),
    "Falsy": ("raise _L.Falsy('f')", "Falsy", False),
    "FalsyAssert": ("raise _L.FalsyAssert('f')", "FalsyAssert", True),
    "GroupBase": ("raise BaseExceptionGroup('g', [KeyboardInterrupt()])", "BaseExceptionGroup", False),
}
KI = ("_L.ki(); raise KeyboardInterrupt", "KeyboardInterrupt", False)
IMPORT_EXCS = ["ValueError", "SystemExit0", "SystemExit1", "sys.exit", "BaseExc", "GeneratorExit", "MemoryError", "assert", "NameError", "TypeError", "KeyError", "SubSystemExit", "SystemExitBig", "NoModule", "Falsy", "AssertFrom", "Deprecation",
               "StopIteration", "Cancelled", "BadStr", "Surrogate", "OSError", "Recursion", "SkipTest", "BaseException", "exitmsg", "Group"]


class Gen:
    def __init__(self, rng):
        self.r = rng
        self.uid = 0

    def p(self, pct):
        return self.r.randrange(100) < pct

    def pick(self, xs):
        return xs[self.r.randrange(len(xs))]

    def n(self, a, b):
        return self.r.randint(a, b)

    def next(self):
        self.uid += 1
        return self.uid


# ---- generation -------------------------------------------------------------------------------------------------------------

def texts(g, o):
    t = g.pick(OUTS)
    if o.get("surr") and g.p(8):
        t = g.pick(SURR)
    return f"[{g.next()}] {t}"


def acts(g, o, fail=30):
    v = []
    for _ in range(g.pick([0, 1, 1, 2, 3, 5])):
        k = g.r.randrange(100)
        if k < 34:
            v.append(["out", texts(g, o), g.n(0, 3)])
        elif k < 56:
            v.append(["err", texts(g, o), g.n(0, 2)])
        elif k < 60:
            v.append(["big", g.pick(["out", "err"]), g.pick([100, 9000, 70000])])
        elif k < 65 and o.get("streams"):
            v.append(["close", g.pick(["out", "err"])])
        elif k < 70 and o.get("streams"):
            v.append(["swap", g.pick(["out", "err"]), g.pick(["io", "none", "file"])])
        elif k < 73:
            v.append(["redirect", texts(g, o)])
        elif k < 76:
            v.append(["caught", g.pick(["ValueError", "assert", "SystemExit0", "BaseExc", "ZeroDivision"])] if not o.get("inject") else ["pass"])
        elif k < 79 and not o.get("inject"):
            v.append(["raises", g.pick(["ValueError", "ZeroDivision", "assert", "SystemExit1"])])
        elif k < 81 and not o.get("inject"):
            v.append(["thread", texts(g, o)])
        elif k < 83 and not o.get("inject"):
            v.append(["async", texts(g, o)])
        elif k < 86:
            v.append(["chdir"])
        elif k < 88:
            v.append(["popmod"])
        elif k < 90:
            v.append(["gc"])
        elif k < 93:
            v.append(["pass"])
        elif k < 95 and not o.get("inject"):
            v.append(["finraise", g.pick(["ValueError", "assert"]), g.pick(list(EXCS))])
        elif k < 96:
            v.append(["warn"])
        elif k < 98:
            v.append(["hints"])
        else:
            v.append(["env"])
    if o.get("calm"):
        fail //= o["calm"]
    if o.get("crash") and g.p(2):
        v.insert(g.n(0, len(v)), ["crash", g.pick(["_exit0", "_exit0", "_exit1", "_exit3", "kill", "term", "abort"])])
    elif g.p(fail):
        a = ["raise", g.pick(list(EXCS))]
        if g.p(35) and not o.get("inject"):
            a += [g.pick(["from", "during", "none"]), g.pick(list(EXCS))]
        v.insert(g.n(0, len(v)), a)
    elif o.get("ki") and g.p(3):
        v.insert(g.n(0, len(v)), ["raise", "KI"])
    return v


REASONS = ["why", "é \"q\"", "line\nbreak", "x", " lead", "trail ", " ", "\t", "None", "{}", "[1] x", "0"]
LOOSE = ["a", "a-b", "b-c", "c", "a_1", "a", "1", 1, 1.0, True, None, "", 2.5, [1], [1, 2], "[x]", "é", 10**20]


def is_loose(f):
    return any(len(set(map(repr, [v for v in s["vals"]]))) != len(s["vals"]) or any(x in LOOSE for v in s["vals"] for x in v) for s in f["cases"])


def cases(g, o, method=False):
    specs = []
    names = ["a", "b", "c", "d", "e"]
    if g.p(1) and not o.get("inject") and not method:
        # more cases than anyone writes by hand
        a, b = g.pick([(130, 0), (11, 11), (101, 1), (4, 30)])
        for n, name in ((a, "a"), (b, "b")):
            if n:
                specs.append({"names": [name], "vals": [[g.next()] for _ in range(n)], "ids": None, "seq": False, "py": False})
        return specs
    for _ in range(g.pick([0] * 9 + [1] * 9 + [2] * 3 + [3] * 3 + [4])):
        k = g.pick([1, 1, 1, 1, 2, 2, 3, 4]) if len(names) > 2 and len(specs) < 2 else 1
        mine, names = names[:k], names[k:]
        if not mine:
            break
        g.r.shuffle(mine)
        n = g.pick([1, 2, 2] if len(specs) > 1 else [1, 2, 3]) if len(specs) else g.pick([1, 2, 3, 5])

        def val():
            i = g.next()
            return g.pick([i, -i, f"s{i}", f"t{i} x", f"é{i}", f"q{i}::z", f"w{i}[k]", i + 0.5, [i], [i, f"u{i}"], [f"u{i}", -i, None], {"k": i}] if nested
                          else [i, -i, f"s{i}", f"t{i} x", f"é{i}", f"q{i}::z", f"w{i}[k]"])
        nested = g.p(20)
        vals = [[val() for _ in mine] for _ in range(n)]
        ids = [f"id{g.next()}" for _ in range(n)] if g.p(25) else None
        if ids and g.p(20) and n > 1:
            ids = ids[:-1]
        specs.append({"names": mine, "vals": vals, "ids": ids, "seq": g.p(20), "py": False, "form": g.pick(["list"] * 6 + ["tuple", "gen", "iter", "dict", "range", "map"]), "kw": g.pick([0, 0, 0, 0, 1, 2])})
        if nested:
            specs[-1]["tup"] = g.p(50)
            if specs[-1]["form"] == "dict":
                specs[-1]["form"] = "list"
        if len(mine) > 1 and g.p(20):
            specs[-1]["rows"] = "list"
            if specs[-1]["form"] == "dict":
                specs[-1]["form"] = "list"
        if specs[-1]["form"] == "range":
            if len(mine) == 1:
                vals[:] = [[g.next()]]
                for _ in range(n - 1):
                    vals.append([vals[-1][0] + 1])
                    g.uid = max(g.uid, vals[-1][0])
            else:
                specs[-1]["form"] = "list"
    if specs and g.p(20) and not o.get("inject"):
        # equal values, and values whose texts run into one another: how such cases are named is not at issue here
        for s in specs:
            s["vals"] = [[g.pick(LOOSE) for _ in s["names"]] for _ in s["vals"]]
            s["form"] = g.pick(["list", "gen", "iter"])
            s["ids"] = [g.pick(["a", "a", "a_1", "b", ""]) for _ in s["vals"]] if s["ids"] else None
    if specs and g.p(15):
        for s in specs:
            s["py"] = True  # pytest's mark
            if s.get("form") in ("gen", "iter", "map"):
                s["form"] = "dict"  # used up by its first expansion, with pytest too
            if s.get("form") == "dict" and (is_loose({"cases": [s]}) or "tup" in s or "rows" in s):
                s["form"] = "list"
    if g.p(3):
        specs.append({"names": ["z"], "vals": [], "ids": None, "seq": False, "py": bool(specs and specs[0]["py"])})  # an empty list: no case
    return specs


def fn(g, o, method=False):
    u = g.next()
    pre = g.pick(o["fpre"])
    f = {"kind": "fn", "uid": u, "name": f"{pre}{u}{g.pick(['', '_x', 'É'])}", "acts": acts(g, o), "cases": cases(g, o, method), "skip": None,
         "style": g.pick(["plain"] * 6 + ["wraps", "nowraps", "lambda" if not method else g.pick(["static", "static", "class"]), "nowraps"])}
    if len(expand(f)) > 40:
        f["acts"] = [a for a in f["acts"] if a[0] in ("out", "err", "pass")][:2]
    if f["style"] in ("static", "class"):
        f["over"] = g.p(40)
    if g.p(15):
        f["skip"] = {"how": g.pick(["rtest", "rtest", "rtest0", "pos", "py", "py0", "pypos"]), "reason": g.pick(REASONS + ["\ud800 x"] * bool(o.get("surr")))}
    f["marks"] = [[g.n(0, 9), g.pick(OTHER)] for _ in range(g.pick([1, 1, 2]))] if g.p(8) else []
    if g.p(3) and not o.get("inject") and not o.get("crash"):
        f["acts"].insert(g.n(0, len(f["acts"])), fork_act(g))
    if g.p(6):
        f["ret"] = g.pick(["0", "False", "[1]", "'x'", "None"])
    if not method and g.p(4):
        f["style"] = g.pick(["async", "generator", "asyncgen"])
    elif method and g.p(4):
        f["style"] = g.pick(["async", "generator", "asyncgen"])
    if f["style"] == "asyncgen":
        f.pop("ret", None)
    if f["style"] in ("async", "generator", "asyncgen"):
        f["acts"] = [a for a in f["acts"] if a[0] in ("out", "err", "pass")]
    return f


# pytest's other marks: none of them skips a test here
OTHER = ["'slow'", "'skipif', False, reason='never'", "'xfail', reason='maybe'", "'usefixtures', 'a', 'b'", "'skip_slow'", "'parametrized'", "''"]

# what a class calls its setup and its teardown
FAMILIES = {
    "setup_method": ("setup_method", "teardown_method"),
    "setUp": ("setUp", "tearDown"),
    "setup_method/tearDown": ("setup_method", "tearDown"),
    "setUp/teardown_method": ("setUp", "teardown_method"),
}


def cls(g, o, earlier):
    u = g.next()
    pre = g.pick(o["cpre"])
    c = {"kind": "cls", "uid": u, "name": f"{pre}{u}", "bases": [], "init": None, "setup": None, "teardown": None, "skip": None, "methods": [], "unittest": False}
    fam = None
    c["off"], c["sup"], c["mark"] = [], {}, g.pick(OTHER) if g.p(6) else None
    if earlier and g.p(o.get("inherit", 45)):
        b = g.pick(earlier[-2:] if g.p(60) else earlier)
        c["bases"] = [b["name"]]
        fam, c["ut"] = b["fam"], b["ut"]
        if len(earlier) > 1 and g.p(25):
            b2 = g.pick(earlier)
            if b2["name"] != b["name"] and b2["fam"] == fam and not b["ut"] and not b2["ut"]:
                c["bases"].append(b2["name"])
                try:
                    mro(earlier + [c])
                except TypeError:
                    c["bases"].pop()
    else:
        fam = g.pick(["setup_method", "setup_method", "setup_method", "setUp", "setUp", "setup_method/tearDown", "setUp/teardown_method"])
        if g.p(15):
            c["unittest"], fam = True, fam if g.p(25) else "setUp"
        c["ut"] = c["unittest"]
    c["fam"] = fam
    few = dict(o)
    if g.p(30):
        c["init"] = acts(g, {**few, "ki": False}, 5)
        c["init"] = [a for a in c["init"] if a[0] in ("pass", "raise", "gc", "out", "err")]
    if g.p(60):
        c["setup"] = acts(g, few, 14)
    if g.p(60):
        c["teardown"] = acts(g, few, 14)
    for k in ("setup", "teardown"):
        if c[k] is not None:
            c["sup"][k] = (bool(c["bases"]) and g.p(50) or g.p(5)) and not o.get("inject")
        elif g.p(4):
            c["off"].append(k)
    c["hook"] = {}
    if c["init"] is not None and not c["bases"] and not c["ut"] and g.p(25):
        # the class's own business: no instance needed
        c["hook"] = {k: g.pick(["class", "static"]) for k in ("setup", "teardown") if c[k] is not None and g.p(70)}
        for k in c["hook"]:
            c["sup"][k] = False
    if g.p(12 if o.get("inherit", 45) < 60 else 4):
        c["skip"] = {"how": g.pick(["rtest", "rtest0", "py", "attr", "attrlist"]), "reason": g.pick(["class reason", " ", "r "])}
    inherited = [m for b in earlier for m in b["methods"]]
    for _ in range(g.pick([0, 1, 1, 2, 3, 4])):
        m = fn(g, o, True)
        if inherited and g.p(30):
            m["name"] = g.pick(inherited)["name"]
        if m["style"] in ("static", "class") and not (c["setup"] is not None or c["init"] is not None):
            m["style"] = "plain"
        if m.get("over"):
            # marks of pytest above staticmethod get lost there too
            for s in m["cases"]:
                s["py"] = False
            if m["skip"] and m["skip"]["how"].startswith("py"):
                m["skip"]["how"] = "rtest"
        if m["name"] not in [x["name"] for x in c["methods"]]:
            c["methods"].append(m)
    if c["methods"] and g.p(15):
        m = g.pick(c["methods"])
        c["methods"].append({"kind": "alias", "name": f"{g.pick(o['fpre'])}al{g.next()}", "of": m["name"]})
    if inherited and g.p(8):
        c["methods"].append({"kind": "none", "name": g.pick(inherited)["name"]})
        c["methods"] = [m for i, m in enumerate(c["methods"]) if m["name"] not in [x["name"] for x in c["methods"][:i]]]
    return c


def mro(classes):
    t = {}
    for c in classes:
        t[c["name"]] = type(c["name"], tuple(t[b] for b in c["bases"]), {})


def fork_act(g):
    return ["fork", g.pick(["_exit", "sysexit", "raise", "assert", "return", "exit3"])]


def crowd(g, o, f):
    """A great many tests of one kind; one of them fails."""
    what, n = g.pick(["fns", "methods", "cases", "classes"]), g.pick([40, 70, 140, 270])
    plain = {"kind": "fn", "acts": [], "cases": [], "skip": None, "style": "plain"}
    if what == "cases":
        v = dict(fn(g, o), acts=[], style="plain", skip=None)
        first = g.next()
        v["cases"] = [{"names": ["a"], "vals": [[first + i] for i in range(n)], "ids": None, "seq": False, "py": g.p(30), "form": "list", "kw": 0}]
        g.uid += n
        f["items"].append(v)
        return
    many = []
    for i in range(n):
        u = g.next()
        many.append(dict(plain, uid=u, name=f"test_{u}", acts=[["raise", "assert"]] if i == n - 1 and g.p(60) else [["pass"]] if i % 7 else []))
    if what == "fns":
        f["items"] += many
    elif what == "methods":
        c = cls(g, {**o, "cpre": ["Test"]}, [])
        c["methods"] += many
        f["items"].append(c)
    else:
        for i in range(0, n, 3):
            c = cls(g, {**o, "cpre": ["Test"]}, [])
            c.update(methods=many[i:i + 3], init=None, bases=[], skip=None)
            f["items"].append(c)


DIRS = ["", "", "", "pkg/", "pkg/sub/", "a b/", "é/", "x.y/", "tests/unit/"]


def gen(g, kind):
    """kind: the property the scenario is for; only the weights differ."""
    inject = g.p({"C14": 25, "C15": 40, "C16": 40, "C17": 20, "C18": 0}.get(kind, 0))
    o = {"surr": kind in ("C14", "C17") or g.p(30), "streams": kind in ("C14", "C17", "C18") or g.p(20), "ki": kind in ("C14", "C18"),
         "inject": inject, "crash": kind == "C18", "calm": g.pick([1, 30, 30, 30]) if kind == "C18" else 0, "fpre": ["test_"] * 8 + ["test", "help_"], "cpre": ["Test"] * 6 + ["Mixin"]}
    sc = {"files": [], "classes": None, "functions": None, "inject": None, "io": [], "gc": g.pick([0, 0, 1, 10, 700]), "abs": True}
    if g.p(15):
        sc["classes"] = g.pick([["Test*"], ["Check*", "Test*"], ["*Suite"], ["Test[A-Z]*", "Check*"]])
        o["cpre"] += ["Check", "TestA"]
    if g.p(15):
        sc["functions"] = g.pick([["test*"], ["check_*", "test_*"], ["it_*"], ["test_?*"]])
        o["fpre"] += ["check_", "it_"]
    nf = g.pick([1, 1, 2, 3, 4] if kind != "C14" else [1, 2, 3, 4, 6])
    for _ in range(nf):
        path = f"{g.pick(DIRS)}test_{g.next()}{g.pick(['', '', '_x', ' y', 'é'])}.py"
        if sc["files"] and g.p(12):
            # a path that differs from an earlier one only in its directory, or in how it is cut into directories
            other = g.pick(sc["files"])["path"]
            path = g.pick([other.replace("/", "."), "q/" + other, "q/" + other.rsplit("/", 1)[-1], other.replace("x.y/", "x/y/")])
            if path in [f["path"] for f in sc["files"]]:
                path = f"test_{g.next()}.py"
        f = {"path": path, "items": [], "imp": None, "pre": [], "helper": None}
        if g.p(30):
            f["pre"] = [a for a in acts(g, {"surr": False}, 0) if a[0] in ("out", "err", "big", "chdir", "gc", "warn", "popmod")]
            f["pre"] = [a for a in f["pre"] if a[0] != "popmod"]
        k = g.r.randrange(100)
        pbad = 25 if kind == "C14" else 1 if o["calm"] > 1 else 10
        if k < pbad:
            how = g.r.randrange(100)
            if how < 60:
                f["imp"] = {"exc": g.pick(IMPORT_EXCS), "at": g.pick(["start", "middle", "end"])}
            elif how < 64 and o["ki"]:
                f["imp"] = {"exc": "KI", "at": g.pick(["start", "end"])}
            else:
                f["imp"] = {"text": g.pick(["syntax", "bytes", "nul", "missing", "indent", "cookie", "nomodule"])}
        earlier = []
        f["data"] = g.p(10)
        deep = g.p(8)
        o["inherit"] = 85 if deep else 45
        if g.p(12):
            shared = [x["helper"] for x in sc["files"] if x["helper"]]
            if shared and g.p(40):
                f["helper"] = {**g.pick(shared), "shared": True}
            else:
                h = fn(g, {**o, "fpre": ["test_"]})
                h["style"] = "plain"
                f["helper"] = {"mod": f"simhelper_{g.next()}", "fn": h, "cls": cls(g, o, []) if g.p(50) else None}
            if f["helper"]["cls"]:
                earlier.append(f["helper"]["cls"])
        for _ in range(g.pick([0, 1, 1, 2, 3, 4]) if not deep else g.n(4, 7)):
            if g.p(55 if not deep else 10):
                f["items"].append(fn(g, o))
            else:
                c = cls(g, o, earlier)
                f["items"].append(c)
                earlier.append(c)
        fns = [i for i in f["items"] if i["kind"] == "fn" and i["style"] not in ("async", "generator", "asyncgen")]
        if fns and g.p(12):
            f["items"].append({"kind": "alias", "name": f"test_al{g.next()}", "of": g.pick(fns)["name"]})
        if earlier and g.p(8):
            c = g.pick(earlier)
            f["items"].append({"kind": "alias", "name": f"TestAl{g.next()}", "of": c["name"]})
        if g.p(10):
            f["items"].append({"kind": "nonfn", "name": f"test_non{g.next()}", "what": g.pick(["partial", "int", "object", "proxy", "lazy"])})
        bases = [i for i in fns if i["cases"] and not is_loose(i) and i["style"] in ("plain", "wraps", "nowraps") and len(expand(i)) < 20]
        if bases and g.p(15):
            b = g.pick(bases)
            w = fn(g, {**o, "fpre": ["test_"]})
            w.update(style="plain", of=b["name"], cases=[{"names": ["w"], "vals": [[g.next()], [g.next()]], "ids": None, "seq": False, "py": b["cases"][0]["py"]}])
            f["items"].append(w)
        if g.p(2) and not inject:
            crowd(g, o, f)
        sc["files"].append(f)
    if inject:
        sc["inject"] = {"where": "test", "n": g.n(1, 60), "exc": g.pick(["Injected", "Injected", "InjectedAssert", "InjectedBase", "MemoryError", "KeyboardInterrupt" if o["ki"] else "Injected"])}
    elif o["ki"] and g.p(10) and kind != "C18":
        sc["inject"] = {"where": "worker", "n": g.n(1, 400), "exc": "KeyboardInterrupt"}
    return sc


# ---- rendering --------------------------------------------------------------------------------------------------------------

def exc_line(name):
    return KI[0] if name == "KI" else EXCS[name][0]


def act_lines(a):
    k = a[0]
    if k == "out":
        t = a[1]
        w = a[2]
        if w == 0 and t.endswith("\n"):
            return [f"print({t[:-1]!r})"]
        if w == 1:
            return [f"print({t!r}, end='')"]
        if w == 2:
            return [f"sys.stdout.writelines([{t!r}, ''])"]
        return [f"sys.stdout.write({t!r})"]
    if k == "err":
        return [f"sys.stderr.write({a[1]!r})"] if a[2] else [f"print({a[1]!r}, end='', file=sys.stderr)"]
    if k == "big":
        return [f"sys.std{a[1]}.write('0123456789' * {a[2] // 10})"]
    if k == "close":
        return [f"sys.std{a[1]}.close()"]
    if k == "swap":
        return [f"sys.std{a[1]} = " + {"io": "io.StringIO()", "none": "None", "file": "open('/dev/null', 'w', encoding='utf-8', errors='replace')"}[a[2]]]
    if k == "redirect":
        return ["with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):", f"    print({a[1]!r}); print('e', file=sys.stderr)"]
    if k == "caught":
        return ["try:", f"    {exc_line(a[1])}", "except (ValueError, AssertionError, SystemExit, ZeroDivisionError, _L.Base):", "    pass"]
    if k == "raises":
        return [f"with rtest.raises({EXCS[a[1]][1]}):", f"    {exc_line(a[1])}"]
    if k == "thread":
        return [f"_t = threading.Thread(target=lambda: print({a[1]!r}, end='')); _t.start(); _t.join()"]
    if k == "async":
        return ["async def _co():", "    await asyncio.sleep(0)", f"    print({a[1]!r}, end='')", "asyncio.run(_co())"]
    if k == "chdir":
        return ["os.chdir('/')"]
    if k == "fork":
        end = {"_exit": "os._exit(0)", "sysexit": "sys.exit(0)", "exit3": "sys.exit(3)", "raise": "raise ValueError('in the child')", "assert": "assert False, 'in the child'", "return": "return"}[a[1]]
        return ["_child = os.fork()", "if _child == 0:", f"    {end}", "os.waitpid(_child, 0)"]
    if k == "hints":
        return ["assert typing.get_type_hints(_Data)['x'] is _Marker"]
    if k == "popmod":
        return ["sys.modules.pop(__name__, None)"]
    if k == "gc":
        return ["gc.collect()"]
    if k == "warn":
        return ["warnings.simplefilter('ignore')"]
    if k == "env":
        return ["os.environ['SIM_X'] = '1'"]
    if k == "finraise":
        return ["try:", f"    {exc_line(a[1])}", "finally:", f"    {exc_line(a[2])}"]
    if k == "raise" and len(a) == 4:
        first, then = exc_line(a[3]), exc_line(a[1])
        if a[2] == "during":
            return ["try:", f"    {first}", "except BaseException:", f"    {then}"]
        # as "raise ... from ..." does
        return ["try:", f"    {then}", "except BaseException as _exa:", "    try:", f"        {first}", "    except BaseException as _exb:",
                f"        _exa.__cause__ = {'_exb' if a[2] == 'from' else 'None'}", "    raise"]
    if k == "raise":
        return [exc_line(a[1])]
    if k == "crash":
        return [{"_exit0": "os._exit(0)", "_exit1": "os._exit(1)", "_exit3": "os._exit(3)", "kill": "os.kill(os.getpid(), 9)", "term": "os.kill(os.getpid(), 15)", "abort": "os.abort()"}[a[1]]]
    return ["pass"]


def pad(lines, n):
    return [" " * n + l for l in lines]


def skip_deco(s):
    h, r = s["how"], s["reason"]
    return {"rtest": f"@rtest.mark.skip(reason={r!r})", "rtest0": "@rtest.mark.skip()", "pos": f"@rtest.mark.skip({r!r})",
            "py": f"@_L.pyskip(reason={r!r})", "py0": "@_L.pyskip()", "pypos": f"@_L.pyskip({r!r})"}[h]


def case_deco(s):
    names = s["names"]
    if s.get("tup"):
        s = {**s, "vals": [[tuple(x) if isinstance(x, list) else x for x in v] for v in s["vals"]]}
    if len(names) == 1 and not s["seq"]:
        vals = [v[0] for v in s["vals"]]
        n = repr(names[0])
    else:
        row = list if s.get("rows") == "list" else tuple
        vals = [row(v) for v in s["vals"]] if len(names) > 1 else [v[0] for v in s["vals"]]
        n = repr(", ".join(names)) if not s["seq"] else repr(names)
    ids = f", ids={s['ids']!r}" if s["ids"] is not None else ""
    v = {"list": f"{vals!r}", "tuple": f"{tuple(vals)!r}", "gen": f"(v for v in {vals!r})", "iter": f"iter({vals!r})", "dict": f"dict.fromkeys({vals!r})",
         "range": f"range({vals[0]}, {vals[-1]} + 1)" if vals and s.get("form") == "range" and len(names) == 1 else f"{vals!r}", "map": f"map(lambda v: v, {vals!r})"}[s.get("form", "list")]
    kw = s.get("kw", 0)
    return f"@{'_L.pyparam' if s['py'] else 'rtest.mark.cases'}({'argnames=' if kw > 1 else ''}{n}, {'argvalues=' if kw else ''}{v}{ids})"


def params(f):
    return [n for s in f["cases"] for n in s["names"]]


def render_fn(f, ind, method, base_params=None):
    u, ps = f["uid"], params(f) + (base_params or [])
    decos = [case_deco(s) for s in f["cases"]]
    if f["skip"]:
        decos.insert(0, skip_deco(f["skip"]))
    for at, m in f.get("marks", []):
        decos.insert(at, f"@_L.pyother({m})")
    kw = "{" + ", ".join(f"{p!r}: {p}" for p in ps) + "}"
    st = f["style"]
    slf = "self" if method and st not in ("static", "class") else "None"
    body = [f"_L.start('body', {u}, {slf}, {kw})"]
    for a in f["acts"]:
        body += act_lines(a)
    body.append(f"_L.end('body', {u})")
    if "ret" in f:
        body.append(f"return {f['ret']}")
    sig = ", ".join(([{"class": "cls"}.get(st, "self")] if method and st != "static" else []) + ps)
    name = f["name"]
    if st == "lambda":
        out = [f"def _body{u}({sig}):"] + pad(body, 4)
        out += [f"{name} = lambda {sig}: _body{u}({sig})"]
        for d in reversed(decos):
            out.append(f"{name} = ({d[1:]})({name})")
        return pad(out, ind)
    inner = []
    if st == "wraps":
        inner = ["@_L.wrap"]
    elif st == "nowraps":
        inner = ["@_L.nowrap"]
    elif f.get("of"):
        inner = [f"@functools.wraps({f['of']})"]
    head = "async def" if st.startswith("async") else "def"
    if st in ("generator", "asyncgen"):
        body.append("yield 1")
    out = decos + inner + [f"{head} {name}({sig}):"] + pad(body, 4)
    if st in ("static", "class"):
        out = out[len(decos):]
        out = decos + [f"@{st}method"] + out if f.get("over") else [f"@{st}method"] + decos + out
    return pad(out, ind)


def render_cls(c, ind=0):
    bases = ["unittest.TestCase"] if c["unittest"] else list(c["bases"])
    out = []
    if c.get("mark"):
        out.append(f"@_L.pyother({c['mark']})")
    if c["skip"] and not c["skip"]["how"].startswith("attr"):
        out.append(skip_deco(c["skip"]))
    out.append(f"class {c['name']}({', '.join(bases)}):")
    body = [f"_simuid = {c['uid']}"]
    if c["skip"] and c["skip"]["how"].startswith("attr"):
        m = f"_L.pymark('skip', reason={c['skip']['reason']!r})"
        body.append(f"pytestmark = {m if c['skip']['how'] == 'attr' else '[' + m + ']'}")
    for what, name in (("init", "__init__"), *zip(("setup", "teardown"), FAMILIES[c["fam"]])):
        if c[what] is not None:
            hook = c.get("hook", {}).get(what)
            sig = "self, *args, **kwargs" if what == "init" else {"class": "cls", "static": ""}.get(hook, "self")
            body += ([f"@{hook}method"] if hook else []) + [f"def {name}({sig}):"]
            chain = [f"    (getattr(super(), {name!r}, None) or (lambda: None))()"] if c.get("sup", {}).get(what) else []
            if what == "setup":
                body += chain
            body += pad([f"_L.start({what!r}, {c['uid']}, {'None' if hook else 'self'}, {{}})"], 4)
            if what == "init" and c["unittest"]:
                body += ["    super().__init__(*args, **kwargs)"]
            for a in c[what]:
                body += pad(act_lines(a), 4)
            body += pad([f"_L.end({what!r}, {c['uid']})"], 4)
            if what == "teardown":
                body += chain
        elif what in c.get("off", []):
            body.append(f"{name} = None")
    for m in c["methods"]:
        if m["kind"] == "alias":
            body.append(f"{m['name']} = {m['of']}")
        elif m["kind"] == "none":
            body.append(f"{m['name']} = None")
        else:
            body += render_fn(m, 0, True)
    return pad(out, ind) + pad(body, ind + 4)


HEAD = "import sys, os, io, gc, typing, dataclasses, warnings, threading, asyncio, contextlib, unittest, functools\nimport rtest\nimport _simlog as _L\n\n\nclass _Marker:\n    pass\n\n\nclass _Data:\n    x: '_Marker'\n\n\n"


def render_file(f):
    """bytes, or None for a missing file; and helper files"""
    extra = {}
    imp = f["imp"] or {}
    L = [f"_L.start('import', {f['path']!r}, None, {{}})"]
    if imp.get("at") == "start":
        L.append(exc_line(imp["exc"]))
    for a in f["pre"]:
        L += act_lines(a)
    if f["helper"]:
        d = f["path"].rsplit("/", 1)[0] + "/" if "/" in f["path"] else ""
        h = f["helper"]
        if not h.get("shared"):
            extra[f"{d}{h['mod']}.py"] = (HEAD + "\n".join(render_fn(h["fn"], 0, False) + (render_cls(h["cls"]) if h.get("cls") else [])) + "\n").encode("utf-8", "surrogatepass")
        L.append(f"from {h['mod']} import {h['fn']['name']}" + (f", {h['cls']['name']}" if h.get("cls") else ""))
    if f.get("data"):
        L += ["@dataclasses.dataclass", "class Data:", '    x: "int" = 0']
    half = len(f["items"]) // 2
    for i, it in enumerate(f["items"]):
        if imp.get("at") == "middle" and i == half:
            L.append(exc_line(imp["exc"]))
        if it["kind"] == "fn":
            L += render_fn(it, 0, False, params(next(x for x in f["items"] if x["name"] == it["of"])) if it.get("of") else None)
        elif it["kind"] == "cls":
            L += render_cls(it)
        elif it["kind"] == "alias":
            L.append(f"{it['name']} = {it['of']}")
        else:
            L.append((f"lazy_{it['name']} = " if it["what"] == "lazy" else f"{it['name']} = ") + {"partial": "functools.partial(print, 'never')", "int": "5", "object": "object()", "proxy": "_L.Proxy()", "lazy": "_L.Proxy()"}[it["what"]])
    if imp.get("at") in ("middle", "end") and not (imp.get("at") == "middle" and f["items"]):
        L.append(exc_line(imp["exc"]))
    L.append(f"_L.end('import', {f['path']!r})")
    text = imp.get("text")
    src = (HEAD + "\n".join(L) + "\n").encode("utf-8", "surrogatepass")
    if text == "missing":
        return None, extra
    if text == "syntax":
        src += b"def broken(:\n"
    elif text == "bytes":
        src = b"x = '\xff\xfe'\n" + src
    elif text == "nul":
        src += b"y = 1\x00\n"
    elif text == "indent":
        src += b"  z = 1\n"
    elif text == "cookie":
        src = b"# -*- coding: no-such-codec -*-\n" + src
    elif text == "nomodule":
        src = src + b"import no_such_module_at_all\n"
    return src, extra


# ---- the model --------------------------------------------------------------------------------------------------------------

def value_token(v):
    return "-".join(value_token(x) for x in v) if isinstance(v, list) else str(v)


def token(s, i):
    if s["ids"] is not None and i < len(s["ids"]):
        return s["ids"][i]
    return value_token(s["vals"][i])


def expand(f, base=None):
    """[(id suffix, kwargs)]: decorators apply from the bottom up, after what came along from a wrapped function"""
    specs = (list(reversed(base["cases"])) if base else []) + list(reversed(f["cases"]))
    if not specs:
        return [("", {})]
    out = []
    for combo in itertools.product(*[range(len(s["vals"])) for s in specs]):
        kw = {}
        for s, i in zip(specs, combo):
            kw.update(dict(zip(s["names"], s["vals"][i])))
        out.append((f"[{'-'.join(token(s, i) for s, i in zip(specs, combo))}]", kw))
    return out


def glob_ok(name, pats):
    import fnmatch
    return any(fnmatch.fnmatchcase(name, p) for p in pats)


class Streams:
    def __init__(self):
        self.out, self.err = [], []
        self.open = {"out": True, "err": True}
        self.vague = False

    def write(self, k, t):
        if self.open[k]:
            getattr(self, k).append(t)


def run_acts(acts_, st):
    """(exception or None): exception is (type name, is assertion)"""
    for a in acts_:
        k = a[0]
        if k in ("out", "err"):
            if st.open[k] is None or st.open[k] == "closed":
                # a write to a missing or closed stream: not specified
                st.vague = True
                continue
            st.write(k, a[1])
        elif k == "big":
            if st.open[a[1]] is None or st.open[a[1]] == "closed":
                st.vague = True
                continue
            st.write(a[1], "0123456789" * (a[2] // 10))
        elif k in ("thread", "async"):
            if st.open["out"] in (None, "closed"):
                st.vague = True
                continue
            st.write("out", a[1])
        elif k == "close":
            if st.open[a[1]] is None:
                st.vague = True
            elif st.open[a[1]] is True:
                st.open[a[1]] = "closed"
        elif k == "swap":
            st.open[a[1]] = None if a[2] == "none" else False
        elif k in ("raises", "caught", "fork", "hints"):
            pass
        elif k == "finraise":
            return EXCS[a[2]][1:]
        elif k == "raise":
            return KI[1:] if a[1] == "KI" else EXCS[a[1]][1:]
    return None


def sane(acts_seq):
    """Drop what is not specified: using a stream after it was closed or removed."""
    out = []
    gone = {"out": False, "err": False}
    for part in acts_seq:
        keep = []
        for a in part or []:
            uses = {"out": ["out"], "err": ["err"], "thread": ["out"], "async": ["out"], "big": [a[1]] if len(a) > 1 else [], "close": [a[1]] if len(a) > 1 else []}.get(a[0], [])
            if any(gone[u] for u in uses):
                continue
            if a[0] == "close" or (a[0] == "swap" and a[2] == "none"):
                gone[a[1]] = True
            elif a[0] == "swap":
                gone[a[1]] = False
            keep.append(a)
        out.append(keep)
    return out


def clean(sc):
    """Make every case use its streams only in specified ways, in every combination of setup, body and teardown it can meet."""
    for f in sc["files"]:
        f["pre"] = sane([f["pre"]])[0]
        fns = [i for i in f["items"] if i["kind"] == "fn"] + ([f["helper"]["fn"]] if f["helper"] else [])
        mine = [i for i in f["items"] if i["kind"] == "cls"] + ([f["helper"]["cls"]] if f["helper"] and f["helper"].get("cls") else [])
        chained = any(c.get("sup", {}).get("teardown") for c in mine)
        for x in fns:
            x["acts"] = sane([x["acts"]])[0]
        if any(m.get("style") in ("static", "class") for c in mine for m in c["methods"]):
            # setup is what tells to which instance such a body belongs
            for c in mine:
                c["off"] = [k for k in c["off"] if k != "setup"]
        for c in mine:
            if c["init"] is None:
                # only its creation tells then which instance they are called for
                c["hook"] = {}
            for m in c["methods"]:
                if m["kind"] == "fn":
                    m["acts"] = sane([m["acts"]])[0]
            for k in ("setup", "teardown"):
                if c[k] is not None:
                    # what setup does to the streams outlives it: keep closing and removing to bodies and functions
                    c[k] = [a for a in c[k] if not (a[0] in ("close", "swap") and (a[0] == "close" or a[2] == "none"))] if k == "setup" else c[k]
            for c2 in [c]:
                if c2["teardown"] is not None:
                    # a body may have closed the stream teardown writes to: teardown then only uses streams no body of the file closes
                    closed = {a[1] for i in mine for m in i["methods"] if m["kind"] == "fn" for a in m["acts"] if a[0] == "close" or (a[0] == "swap" and a[2] == "none")}
                    c2["teardown"] = [a for a in c2["teardown"] if not ({"out": "out", "err": "err", "thread": "out", "async": "out"}.get(a[0], a[1] if a[0] in ("big", "close") else None) in closed)]
                    c2["teardown"] = sane([c2["teardown"]])[0]
                    if chained:
                        # the next teardown still needs its streams
                        c2["teardown"] = [a for a in c2["teardown"] if not (a[0] == "close" or a[0] == "swap" and a[2] == "none")]
    if has_act(sc["files"], "popmod"):
        drop_act(sc["files"], "hints")
    return sc


def has_act(x, name):
    if isinstance(x, list):
        return bool(x) and x[0] == name or any(has_act(y, name) for y in x)
    return isinstance(x, dict) and any(has_act(y, name) for y in x.values())


def drop_act(x, name):
    if isinstance(x, list):
        x[:] = [y for y in x if not (isinstance(y, list) and y and y[0] == name)]
        for y in x:
            drop_act(y, name)
    elif isinstance(x, dict):
        for y in x.values():
            drop_act(y, name)


class Case:
    __slots__ = ("file", "nodeid", "skip", "reasons", "phases", "kwargs", "uid", "cls", "style", "base", "loose")


def chain(mro, what):
    """The classes whose setup or teardown runs, the most derived first: each may call the next one's"""
    out = []
    for x in mro:
        if what in x.get("off", []):
            break
        if x[what] is None:
            continue
        out.append(x)
        if not x.get("sup", {}).get(what):
            break
    return out


def cases_of(sc, f):
    """Every test case the file defines, in no particular order."""
    cpats = sc["classes"] or ["Test*"]
    fpats = sc["functions"] or ["test*"]
    ns = {}
    types = {}
    classes = {}
    if f["helper"]:
        ns[f["helper"]["fn"]["name"]] = f["helper"]["fn"]
        h = f["helper"].get("cls")
        if h:
            ns[h["name"]] = h
            types[h["name"]] = type(h["name"], (), {})
            classes[types[h["name"]]] = h
    for it in f["items"]:
        if it["kind"] == "alias":
            if it["of"] in ns:
                ns[it["name"]] = ns[it["of"]]
        elif it["kind"] == "nonfn":
            if it["what"] != "lazy":
                ns.pop(it["name"], None)
        else:
            ns[it["name"]] = it
            if it["kind"] == "cls":
                bases = tuple(types[b] for b in it["bases"])
                types[it["name"]] = type(it["name"], bases, {})
                classes[types[it["name"]]] = it
    out = []

    def add(nodeid, m, c, mro):
        of = next((x for x in f["items"] if x["name"] == m["of"]), None) if m.get("of") else None
        for suffix, kw in expand(m, of):
            k = Case()
            k.file, k.nodeid, k.kwargs, k.uid, k.style = f["path"], nodeid + suffix, kw, m["uid"], m["style"]
            k.cls = c["name"] if c else None
            k.base, k.loose = nodeid, is_loose(m)
            k.reasons = []
            if m["skip"]:
                k.reasons.append(reason(m["skip"]))
            if of and of["skip"]:
                k.reasons.append(reason(of["skip"]))
            k.phases = []
            if c:
                for x in mro:
                    if x["skip"]:
                        k.reasons.append(reason(x["skip"]))
                d = next((x for x in mro if x["init"] is not None), None)
                if d:
                    k.phases.append(("init", d["uid"], d["init"]))
                k.phases += [("setup", d["uid"], d["setup"]) for d in reversed(chain(mro, "setup"))]
            k.phases.append(("body", m["uid"], m["acts"]))
            if c:
                k.phases += [("teardown", d["uid"], d["teardown"]) for d in chain(mro, "teardown")]
            k.skip = bool(k.reasons)
            out.append(k)

    for name, it in ns.items():
        if it["kind"] == "fn":
            if glob_ok(name, fpats):
                add(f"{f['path']}::{name}", it, None, [])
        elif it["kind"] == "cls" and glob_ok(name, cpats):
            mro = [classes[t] for t in types[it["name"]].__mro__ if t in classes]
            names = {}
            for c in mro:
                own = {}
                for m in c["methods"]:
                    own[m["name"]] = own.get(m.get("of")) if m["kind"] == "alias" else m
                for n, m in own.items():
                    names.setdefault(n, m)
            for n, m in names.items():
                if m and m["kind"] == "fn" and glob_ok(n, fpats):
                    add(f"{f['path']}::{name}::{n}", m, it, mro)
    return out


def reason(s):
    return "" if s["how"] in ("rtest0", "py0") else s["reason"]
