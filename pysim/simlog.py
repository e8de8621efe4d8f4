"""What generated test files import as _simlog: a record of everything they do, written at once to the log descriptor."""
import functools
import json
import os

FD = -1
PID = os.getpid()
_n = 0


class SubAssert(AssertionError):
    pass


class Base(BaseException):
    pass


class BadStr(Exception):
    def __str__(self):
        raise ValueError("no text")

    __repr__ = __str__


class AssertionErrorLookalike(Exception):
    pass


class Exit(SystemExit):
    pass


class Both(ValueError, AssertionError):
    pass


class BadAssert(AssertionError):
    def __str__(self):
        raise ValueError("no text")


class AssertGroup(ExceptionGroup, AssertionError):
    pass


class Falsy(Exception):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


class FalsyAssert(Falsy, AssertionError):
    pass


class Proxy:
    """As a lazily bound object outside of the context it needs."""
    @property
    def __class__(self):
        raise RuntimeError("working outside of context")


class Injected(Exception):
    pass


class InjectedAssert(AssertionError):
    pass


class InjectedBase(BaseException):
    pass


INJECT = {"Injected": Injected, "InjectedAssert": InjectedAssert, "InjectedBase": InjectedBase, "MemoryError": MemoryError, "KeyboardInterrupt": KeyboardInterrupt,
          "SystemExit": lambda text: SystemExit(0)}


def emit(*e):
    if os.getpid() != PID:
        e = ("child", *e)
    data = (json.dumps(e) + "\n").encode()
    while data:
        data = data[os.write(FD, data):]


def start(kind, what, obj, kwargs):
    global _n
    inst = cls = None
    if obj is not None:
        cls = type(obj).__name__
        inst = obj.__dict__.get("_sim_n")
        if inst is None:
            _n += 1
            inst = obj.__dict__["_sim_n"] = _n
    emit("start", kind, what, inst, cls, kwargs)


def end(kind, what):
    emit("end", kind, what)


def ki():
    emit("ki")


def recurse(n=0):
    return recurse(n + 1)


def while_handling():
    try:
        {}["k"]
    except KeyError:
        assert False, "while handling"


def noted():
    e = AssertionError("noted")
    e.add_note("a note")
    raise e


def chained():
    try:
        assert False, "first"
    except AssertionError as e:
        raise KeyError("second") from e


def wrap(f):
    @functools.wraps(f)
    def inner(*a, **k):
        return f(*a, **k)
    return inner


def nowrap(f):
    def wrapper(*a, **k):
        return f(*a, **k)
    return wrapper


class _Mark:
    def __init__(self, name, args, kwargs):
        self.name, self.args, self.kwargs = name, args, kwargs


def _pymark(name, a, k):
    def deco(f):
        own = f.__dict__.get("pytestmark", [])
        f.pytestmark = [*(own if isinstance(own, list) else [own]), _Mark(name, a, k)]
        return f
    return deco


def pymark(name, *a, **k):
    return _Mark(name, a, k)


def pyother(name, *a, **k):
    return _pymark(name, a, k)


def pyskip(*a, **k):
    return _pymark("skip", a, k)


def pyparam(*a, **k):
    return _pymark("parametrize", a, k)
