"""Native side: executable contracts run against the real code on CPython.

A case is plain Python data (literals only), so that a failing one can be written to a file and replayed.
An oracle has `cases(g)`, an unending generator of cases (systematic ones first), and `run(case)`, which
returns None or a description of how the real code broke the contract on this case.
"""
import ast
import datetime
import copy
import itertools
import json
import math
import os
import random
import time
import types
import zlib

REPO = os.environ.get("VERIF_REPO", "/repo")


class Broken(Exception):
    """The code under test broke the contract."""


def strict_eq(a, b):
    """Equal including the types, at every level."""
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(strict_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        if len(a) != len(b):
            return False
        for k, v in a.items():
            if k not in b or not strict_eq(v, b[k]):
                return False
        return {(type(k), k) for k in a} == {(type(k), k) for k in b}
    if isinstance(a, float) and math.isnan(a):
        return math.isnan(b)
    if isinstance(a, datetime.datetime) and a.utcoffset() != b.utcoffset():
        return False
    return a == b


def same(a, b):
    """Strictly equal, except that a message object is compared by its class and fields."""
    return strict_eq(a, b)


_harvest = {}


def harvest(root=None):
    """String and integer literals of the code under test; those of text, numbers and bytes the code did not have when this was written."""
    root = root or os.path.join(REPO, "wampproto")
    if root in _harvest:
        return _harvest[root]
    strs, ints, rest = set(), set(), set()
    for d, _, fs in os.walk(root):
        for f in sorted(fs):
            if f.endswith(".py"):
                try:
                    tree = ast.parse(open(os.path.join(d, f), encoding="utf-8").read())
                except (SyntaxError, UnicodeDecodeError):
                    continue
                for n in ast.walk(tree):
                    if isinstance(n, ast.Constant):
                        if isinstance(n.value, str) and len(n.value) <= 40:
                            strs.add(n.value)
                        elif isinstance(n.value, int) and not isinstance(n.value, bool):
                            ints.add(n.value)
                        elif isinstance(n.value, (float, bytes)) and len(repr(n.value)) <= 60:
                            rest.add(n.value)
                    elif isinstance(n, ast.BinOp):
                        try:
                            v = eval(compile(ast.Expression(n), "x", "eval"), {"__builtins__": {}})
                        except Exception:
                            continue
                        if isinstance(v, int) and abs(v) < 2 ** 70:
                            ints.add(v)
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "literals.json"), encoding="utf-8") as fh:
        known = json.load(fh)
    _harvest[root] = (sorted(strs), sorted(ints), sorted(strs - set(known["str"])), sorted(ints - set(known["int"])),
                      sorted((x for x in rest if repr(x) not in known["rest"]), key=repr))
    return _harvest[root]


def sizes():
    """How much of one thing to pile up: round numbers, and just past the numbers the code names."""
    return [20, 70, 130, 260, 520, 1030] + [i + 2 for i in harvest()[1] if 75 < i <= 3000] + [i + 2 for i in harvest()[3] if 3000 < i <= 20000]


IDS = [1, 2, 3, 2 ** 53, 2 ** 53 - 1, 2 ** 31, 2 ** 32, 255, 256, 65535, 65536, 127, 128]
INTS = IDS + [0, -1, 2 ** 53 + 1, -2 ** 53, 2 ** 63 - 1, 2 ** 64 - 1, -2 ** 63]
STRS = ["", "a", "b", "io.xconn.test", "realm1", "x" * 300, "äß€", "\U0001F600", "\x00", " ", "wamp.error.x", "1", "0", "null",
        "none", "A", "a.b", "a.b.c", "é" * 40, "e\u0301", "\u212b\ufb01\uff41\u00b2", "\u0130\u0131\u017f\u1e9e", "\u00a0x\u2003", "\ufeffx\u200b\u00ad",
        "x\r\n", "%s {0} \\", "-1", "true", "\ud7ff\ue000\uffff"]
VALUES = [None, True, False, 0, 1, -1, 2 ** 53, 2 ** 53 + 1, 1.5, 1.0, 0.0, "", "x", b"", b"x", [], [1], {}, {"k": 1}, {"k": None},
          [None], [[]], {"a": {"b": [1, "x", None, 2.5]}}, "1", {1: 2}, {"": 0}]


FLAGS = ["progress", "acknowledge", "receive_progress", "disclose_me", "exclude_me", "binary"]


class Gen:
    def __init__(self, seed, hints=()):
        self.seed = seed
        self.r = random.Random(seed)
        strs, ints, self.new_strs, new_ints, self.new_rest = harvest()
        self.strs = list(strs)
        self.new_ints = sorted({j for i in new_ints for j in (i - 1, i, i, i + 1)})
        self.new_bytes = [x for x in self.new_rest if isinstance(x, bytes)]
        self.new_floats = [x for x in self.new_rest if isinstance(x, float)]
        self.hints = [i for i in hints if isinstance(i, int)]
        self.ints = sorted({j for i in ints for j in (i - 1, i, i + 1)} | {j for i in self.hints for j in (i - 1, i, i + 1)})

    def chance(self, p):
        return self.r.random() < p

    def pick(self, xs):
        return xs[self.r.randrange(len(xs))]

    def id(self):
        k = self.r.random()
        if self.new_ints and self.chance(0.15):
            v = self.pick(self.new_ints)
            if 1 <= v <= 2 ** 53:
                return v
        if k < 0.4:
            return self.r.randint(1, 9)
        if k < 0.6:
            return self.pick(IDS)
        if k < 0.75:
            c = [i for i in self.ints if 1 <= i <= 2 ** 53]
            return self.pick(c)
        return int(2 ** (self.r.random() * 53)) or 1

    def int(self, lo=None, hi=None):
        k = self.r.random()
        for _ in range(20):
            if self.new_ints and self.chance(0.15):
                v = self.pick(self.new_ints)
            elif k < 0.35:
                v = self.r.randint(-3, 12)
            elif k < 0.6:
                v = self.pick(INTS)
            elif k < 0.8:
                v = self.pick(self.ints)
            else:
                v = int(2 ** (self.r.random() * 62)) * self.pick([1, 1, -1])
            if (lo is None or v >= lo) and (hi is None or v <= hi):
                return v
            k = self.r.random()
        return self.r.randint(lo if lo is not None else -100, hi if hi is not None else (lo or 0) + 100)

    def str(self):
        k = self.r.random()
        if self.new_strs and self.chance(0.25):
            v = self.pick(self.new_strs)
            return v if self.chance(0.8) else self.pick([v + self.pick(STRS), self.pick(STRS) + v, v.upper(), v[:-1], "a" + v + "b"])
        if k < 0.45:
            return self.pick(STRS)
        if k < 0.75:
            return self.pick(self.strs)
        return "".join(self.pick("abcdefghijklmnopqrstuvwxyz.-_/ 0123456789ÄÖ") for _ in range(self.r.randint(1, 14)))

    def bytes(self):
        if self.new_bytes and self.chance(0.3):
            return self.pick([b"", b"", b"a"]) + self.pick(self.new_bytes) + self.pick([b"", b"", b"a"])
        return bytes(self.r.randrange(256) for _ in range(self.pick([0, 1, 2, 3, 4, 8, 16, 32])))

    def float(self):
        if self.new_floats and self.chance(0.3):
            return self.pick(self.new_floats)
        return self.pick([0.0, 1.0, -1.5, 0.1, 1e300, 1e-300, 2.5, 3.0])

    def value(self, depth=2, binary=True, intkeys=True):
        k = self.r.random()
        if depth > 0 and k < 0.2:
            return self.list(depth - 1, binary, intkeys)
        if depth > 0 and k < 0.4:
            return self.dict(depth - 1, binary, intkeys)
        if k < 0.5:
            return None
        if k < 0.6:
            return self.chance(0.5)
        if k < 0.75:
            return self.int()
        if k < 0.82:
            return self.float()
        if binary and k < 0.86:
            return self.bytes()
        return self.str()

    def list(self, depth=2, binary=True, intkeys=True):
        return [self.value(depth, binary, intkeys) for _ in range(self.pick([0, 0, 1, 1, 2, 3, 5]))]

    def dict(self, depth=2, binary=True, intkeys=True):
        out = {}
        for _ in range(self.pick([0, 0, 1, 1, 2, 3])):
            if self.chance(0.12):
                out[self.pick(FLAGS)] = self.chance(0.6)
                continue
            if self.new_strs and self.chance(0.3):
                out[self.pick(self.new_strs)] = self.pick(self.new_strs + self.new_ints + [True, False])
                continue
            k = self.int() if intkeys and self.chance(0.1) else self.str()
            out[k] = self.value(depth, binary, intkeys)
        return out

    def near(self, s):
        """Another text (or number) much like this one."""
        if isinstance(s, int):
            return self.pick([s + 1, s - 1, s * 2, s + 2 ** 32, s ^ 1, s % 2 ** 32, s // 2])
        c = "abc.XYZ "[self.r.randrange(8)]
        return self.pick([s.swapcase(), s.upper(), s.lower(), s.strip(), s + " ", " " + s, s + ".", s + c, s[:-1], s[1:], s * 2, s[::-1],
                          s + "\x00", s.replace(".", ".."), s.rstrip("."), s + "." + s, s.rpartition(".")[0], s.casefold(), s + "\u0301"])

    def options(self, names, values=None):
        """A dictionary using some of the given option names."""
        out = {}
        for n in names:
            if self.chance(0.5):
                out[n] = self.pick(values) if values else self.value(1)
        if self.chance(0.3):
            out.update(self.dict(1))
        return out


class Clock:
    """The time the code under test sees: in every other history, an hour passes between any two calls."""
    ahead = leap = 0
    real = time.monotonic

    @classmethod
    def install(cls):
        """Before the code is imported, as it may take the functions by name."""
        for n in ("time", "monotonic", "perf_counter"):
            setattr(time, n, lambda f=getattr(time, n): f() + Clock.ahead)
            setattr(time, n + "_ns", lambda f=getattr(time, n + "_ns"): f() + Clock.ahead * 10 ** 9)


def outcome(fn, *args, **kw):
    """("ok", result) or ("raise", exception)."""
    Clock.ahead += Clock.leap
    try:
        return "ok", fn(*args, **kw)
    except Exception as e:
        return "raise", e


def describe(e):
    try:
        text = str(e)[:200]
    except Exception:
        text = "(its text cannot be read)"
    return f"{type(e).__name__}: {text}"


def interface_error(e):
    """Whether an exception in an oracle says that it could not be put to the code at all (a name or signature is not there)."""
    if isinstance(e, (ImportError, NameError, OSError, MemoryError)):
        return True
    if isinstance(e, AttributeError):
        return isinstance(e.obj, (types.ModuleType, type)) or str(e.name).startswith("_") and not inside(e)
    return isinstance(e, TypeError) and ("unexpected keyword" in str(e) or "positional argument" in str(e)) and not inside(e)


def inside(e):
    """Whether an exception was raised by the code under test."""
    tb = e.__traceback__
    while tb.tb_next:
        tb = tb.tb_next
    return os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(os.path.realpath(os.path.join(REPO, "wampproto")) + os.sep)


def search(oracle, seed, budget_s, max_cases, hints=()):
    """Run cases until one fails. Returns (case, why, stats)."""
    g = Gen(seed, hints)
    t0 = Clock.real()
    n, seen, samples = 0, set(), []
    for case in oracle.cases(g):
        if n >= max_cases or Clock.real() - t0 > budget_s:
            break
        n += 1
        key = repr(case)
        seen.add(hash(key))
        if len(samples) < 3 or n in (50, 500):
            samples.append(key[:400])
        why = run_one(oracle, case)
        if why:
            case, why = shrink(oracle, case, why)
            return case, why, {"cases": n, "distinct": len(seen), "samples": samples[:5], "time": Clock.real() - t0}
    return None, None, {"cases": n, "distinct": len(seen), "samples": samples[:5], "time": Clock.real() - t0}


def run_one(oracle, case):
    if hasattr(oracle, "fresh"):
        oracle.fresh()
    Clock.leap = 3600 * (getattr(oracle, "history", False) and zlib.crc32(repr(case).encode("utf-8", "replace")) % 2)
    try:
        return oracle.run(copy.deepcopy(case))
    except Broken as e:
        return str(e)
    except RecursionError as e:
        return "RecursionError"
    except Exception as e:
        if interface_error(e):
            raise
        return f"what the code answered cannot be read: {describe(e)}"


def shrink(oracle, case, why):
    """Drop steps of a history while it still fails."""
    if not (isinstance(case, tuple) and len(case) and isinstance(case[-1], list) and getattr(oracle, "history", False)):
        return case, why
    t0 = Clock.real()
    steps = list(case[-1])
    size = max(1, len(steps) // 2)
    while True:
        i = 0
        while i < len(steps) and Clock.real() - t0 < 5:
            c = case[:-1] + (steps[:i] + steps[i + size:],)
            w = run_one(oracle, c)
            if w:
                steps, why = steps[:i] + steps[i + size:], w
            else:
                i += size
        if size == 1 or Clock.real() - t0 >= 5:
            break
        size //= 2
    return case[:-1] + (steps,), why
