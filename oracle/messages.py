"""M01-M06 on CPython."""
import copy
import datetime
import decimal
import fractions
import itertools
import json
import math
import re
import uuid

import cbor2
import msgpack

from wampproto import messages
from wampproto.serializers import CBORSerializer, JSONSerializer, MsgPackSerializer
from wampproto.serializers import payload as payload_mod
from wampproto.serializers.serializer import to_message
from spec import wamp
from .base import Gen, VALUES, describe, outcome, strict_eq, IDS


def make(m, f):
    """The real message with the given fields (None: left out)."""
    fields = getattr(messages, m.name + "Fields")(**{k: v for k, v in f.items() if v is not None})
    return getattr(messages, m.name)(fields)


def reported(m, f):
    out = dict(f)
    for n, k in m.wire:
        if k == "dict" and out.get(n) is None:
            out[n] = {}
        if k == "welcome" and out.get("authextra") is None:
            out["authextra"] = {}
    return out


def read(m, msg):
    return {n: getattr(msg, n) for n in wamp.field_names(m)}


def field(g, kind, binary):
    if kind == "id":
        return g.id()
    if kind == "int":
        return g.int()
    if kind == "str":
        return g.str()
    if kind == "list":
        return g.list(1, binary, False)
    if kind == "roles":
        return {r: g.dict(1, binary, False) for r in g.r.sample(wamp.ROLES, g.r.randint(1, 6))}
    return g.dict(1, binary, False)


def optional_names(m):
    out = []
    for n, k in m.wire:
        if k in wamp.DETAILS:
            out += [d[0] for d in wamp.DETAILS[k] if not d[2]]
        elif n in m.optional:
            out.append(n)
    return out + (["args", "kwargs"] if m.payload else [])


def kind_of(m, name):
    for n, k in m.wire:
        if n == name:
            return k
        if k in wamp.DETAILS:
            for dn, dk, _ in wamp.DETAILS[k]:
                if dn == name:
                    return dk
    return {"args": "list", "kwargs": "dict"}[name]


def gen_fields(g, m, present=None, binary=False, empty=False):
    f = {}
    opt = optional_names(m)
    for n in wamp.field_names(m):
        if n in opt and (n not in present if present is not None else g.chance(0.4)):
            f[n] = None
        elif empty and kind_of(m, n) in ("list", "dict", "str"):
            f[n] = {"list": [], "dict": {}, "str": ""}[kind_of(m, n)]
        else:
            f[n] = field(g, kind_of(m, n), binary)
    return f


def field_cases(g, binary=False):
    for m in wamp.MESSAGES:
        opt = optional_names(m)
        for k in range(len(opt) + 1):
            for present in itertools.combinations(opt, k):
                yield m.name, gen_fields(g, m, present, binary)
                yield m.name, gen_fields(g, m, present, binary, empty=True)
    for m in wamp.MESSAGES:
        for n in wamp.field_names(m):
            if kind_of(m, n) == "id":
                for i in IDS:
                    f = gen_fields(g, m, None, binary)
                    f[n] = i
                    yield m.name, f
    while True:
        m = g.pick(wamp.MESSAGES)
        yield m.name, gen_fields(g, m, None, binary)


class Keeper:
    """Looks at earlier results again: they must not have changed in the meantime."""
    def __init__(self):
        self.old = []

    def fresh(self):
        pass

    def keep(self, m, msg, want, what):
        self.old.append((m, msg, copy.deepcopy(want), what))
        if len(self.old) > 6:
            self.old.pop(0)

    def recheck(self):
        for m, msg, want, what in self.old:
            got = read(m, msg)
            if not strict_eq(got, want):
                self.old = []
                return f"{m.name}: a message changed after it was made ({what}): {got!r} instead of {want!r}"


class M01(Keeper):
    def cases(self, g):
        return field_cases(g)

    def run(self, case):
        name, f = case
        m = wamp.BY_NAME[name]
        want = reported(m, copy.deepcopy(f))
        rt = dict(want)
        if m.payload and f["args"] is None and f["kwargs"] is not None:
            rt["args"] = []
        k, msg = outcome(make, m, f)
        if k == "raise":
            return f"{name}: constructing with {f!r} raises {describe(msg)}"
        k, w = outcome(msg.marshal)
        if k == "raise":
            return f"{name}: marshal of {f!r} raises {describe(w)}"
        w0 = copy.deepcopy(w)
        k, back = outcome(getattr(messages, name).parse, w)
        if k == "raise":
            return f"{name}: parse({w!r}) raises {describe(back)}"
        if type(back) is not getattr(messages, name):
            return f"{name}: parse gives {type(back).__name__}"
        got = read(m, back)
        if not strict_eq(got, rt):
            return f"{name}: {rt!r} came back as {got!r} over {w0!r}"
        if not strict_eq(w, w0) or not strict_eq(read(m, msg), want):
            return f"{name}: the round trip changed the message or the list"
        why = self.recheck()
        self.keep(m, back, rt, "parsed")
        self.keep(m, msg, want, "constructed")
        return why


class M02(Keeper):
    def cases(self, g):
        return field_cases(g)

    def run(self, case):
        name, f = case
        m = wamp.BY_NAME[name]
        want = wamp.wire_of_fields(m, copy.deepcopy(f))
        rep = reported(m, copy.deepcopy(f))
        k, msg = outcome(make, m, f)
        if k == "raise":
            return f"{name}: constructing with {f!r} raises {describe(msg)}"
        got = outcome(read, m, msg)[1]
        if not strict_eq(got, rep):
            return f"{name}: made of {rep!r} but reports {got!r}"
        for i in range(2):
            k, w = outcome(msg.marshal)
            if k == "raise":
                return f"{name}: marshal of {f!r} raises {describe(w)}"
            if not strict_eq(w, want):
                return f"{name}: encodes to {w!r} instead of {want!r} (call {i + 1})"
            if not w[0] == m.code == getattr(messages, name).TYPE:
                return f"{name}: type code"
        why = self.recheck()
        self.keep(m, msg, rep, "constructed")
        return why


def mutations(g, m, w):
    """Variants of a wire list, most of them malformed."""
    yield list(w)
    for i in range(len(w)):
        for v in VALUES:
            x = list(w)
            x[i] = copy.deepcopy(v)
            yield x
    for n in range(0, len(w)):
        yield w[:n]
    for extra in ([[]], [[], {}], [None], [{}], [[], []], [{}, []], [[], {}, []], [[1], {"a": 1}], [[], None]):
        yield list(w) + copy.deepcopy(extra)
        yield list(w[:m.min_len]) + copy.deepcopy(extra)
    for i, (n, k) in enumerate(m.wire):
        if k in wamp.DETAILS:
            names = [d[0] for d in wamp.DETAILS[k]] + [c[0] for c in wamp.CHECKED[k]] + ["unknown"]
            for name in names:
                for v in VALUES:
                    x = list(w)
                    x[i + 1] = {**w[i + 1], name: copy.deepcopy(v)}
                    yield x
                x = list(w)
                x[i + 1] = {a: b for a, b in w[i + 1].items() if a != name}
                yield x
            odd = tuple(v for r in wamp.ROLES for v in (r.upper(), r.title(), r + "s", " " + r, r[:-1], f"AllowedRoles.{r.upper()}"))
            for r in wamp.ROLES + odd + ("", "Callee", "callees", "router", "client", "calle", "subscriber ", "x", 1, None, True, 0, b"callee", 1.5):
                for roles in ({r: {}}, {"caller": {}, r: {}}, {r: {}, "caller": {}}, {r: None}, {"callee": 1, "broker": {}, r: []}):
                    x = list(w)
                    x[i + 1] = {**w[i + 1], "roles": roles}
                    yield x
        elif k in ("id", "int"):
            for v in g.hints[:20] + [0, -1, 2 ** 53, 2 ** 53 + 1, 2 ** 64, 2 ** 52, -2 ** 53, True, False, 1.0, 2.0, "1"]:
                x = list(w)
                x[i + 1] = v
                yield x
        elif k == "dict":
            for v in ({"k": 1}, {1: 1}, {None: 1}, {"": None}, {"progress": 1}, {b"x": 1}, {1.5: 0, "a": 0}):
                x = list(w)
                x[i + 1] = v
                yield x
    for c in (True, 1.0 * m.code, m.code + 1, m.code - 1, 0, -m.code, str(m.code), None):
        yield [c] + list(w[1:])


class M03(Keeper):
    def cases(self, g):
        for m in wamp.MESSAGES:
            for v in VALUES + [(), (m.code,), "abcdef", b"abcdef", 1, {0: m.code, 1: 1, 2: {}}]:
                yield m.name, copy.deepcopy(v)
            full = {n for n in optional_names(m)}
            f = gen_fields(g, m, full, True)
            yield from ((m.name, w) for w in mutations(g, m, wamp.wire_of_fields(m, f)))
        while True:
            m = g.pick(wamp.MESSAGES)
            w = wamp.wire_of_fields(m, gen_fields(g, m, None, True))
            k = g.r.random()
            if k < 0.3:
                yield m.name, w
                continue
            for _ in range(1 if k < 0.8 else 2):
                i = g.r.randrange(len(w) + 1)
                if i < len(w):
                    if isinstance(w[i], dict) and g.chance(0.5):
                        w[i] = {**w[i], g.pick(g.strs): g.value(1)}
                    elif isinstance(w[i], dict) and w[i] and g.chance(0.3):
                        w[i] = dict(w[i])
                        del w[i][g.pick(list(w[i]))]
                    elif g.chance(0.1):
                        del w[i]
                        break
                    else:
                        w[i] = g.pick([g.value(2), g.int(), g.str(), {}, [], None])
                else:
                    w.append(g.value(1))
            yield m.name, w

    def run(self, case):
        name, w = case
        m = wamp.BY_NAME[name]
        w0 = copy.deepcopy(w)
        wf = wamp.well_formed(w0, m)
        k, r = outcome(getattr(messages, name).parse, w)
        if not strict_eq(w, w0):
            return f"{name}: parse changed its input {w0!r} to {w!r}"
        if k == "raise":
            if not isinstance(r, ValueError):
                return f"{name}: parse({w0!r}) raises {describe(r)}"
            return f"{name}: parse rejects the well-formed {w0!r}: {describe(r)}" if wf else self.recheck()
        if not wf:
            return f"{name}: parse accepts the malformed {w0!r}"
        if type(r) is not getattr(messages, name):
            return f"{name}: parse({w0!r}) gives {type(r).__name__}"
        want = wamp.fields_of_wire(w0, m)
        got = read(m, r)
        if not strict_eq(got, want):
            return f"{name}: parse({w0!r}) reports {got!r} instead of {want!r}"
        why = self.recheck()
        self.keep(m, r, want, "parsed")
        return why


class M04:
    def cases(self, g):
        for v in VALUES + [(), (1,), "[1]", b"[1]", [None], [[]], [{}], ["1"], [True], [1.0], [48.0]]:
            yield copy.deepcopy(v)
        for m in wamp.MESSAGES:
            for present in ((), optional_names(m)):
                yield wamp.wire_of_fields(m, gen_fields(g, m, present, True))
        for c in list(range(-3, 300)) + [2 ** 31, 2 ** 32, 2 ** 53, 2 ** 64]:
            for tail in ([], [1], [1, {}], [1, {}, "x"], ["x", {}], [{}, "x"], [1, 1], [1, 1, {}], ["r", {"roles": {"caller": {}}}]):
                yield [c] + tail
        while True:
            m = g.pick(wamp.MESSAGES)
            w = wamp.wire_of_fields(m, gen_fields(g, m, None, True))
            k = g.r.random()
            if k < 0.2:
                w[0] = g.value(1)
            elif k < 0.3:
                w[0] = g.pick(wamp.MESSAGES).code
            elif k < 0.5:
                w[g.r.randrange(len(w))] = g.value(2)
            yield w

    def run(self, case):
        v0 = copy.deepcopy(case)
        k, r = outcome(to_message, case)
        code = v0[0] if isinstance(v0, list) and v0 else None
        m = wamp.BY_CODE.get(code) if isinstance(code, int) else None
        if k == "raise":
            if not isinstance(r, (ValueError, TypeError)):
                return f"to_message({v0!r}) raises {describe(r)}"
            if m is not None and wamp.well_formed(v0, m):
                return f"to_message rejects the well-formed {v0!r}: {describe(r)}"
            return None
        if m is None:
            return f"to_message({v0!r}) gives a {type(r).__name__}"
        if type(r) is not getattr(messages, m.name):
            return f"to_message({v0!r}) gives a {type(r).__name__} instead of {m.name}"
        want = wamp.fields_of_wire(v0, m) if wamp.well_formed(v0, m) else None
        if want is not None and not strict_eq(read(m, r), want):
            return f"to_message({v0!r}) reports {read(m, r)!r}"
        return None


def deep(n, wrap, v):
    for _ in range(n):
        v = wrap(v)
    return v


# values no literal stands for, or too long for one: written ("$", name[, number]) in cases
WIDE = {
    "str": lambda n: "x" * n, "text": lambda n: "é" * n, "bytes": lambda n: b"\xa5" * n, "list": lambda n: list(range(n)),
    "dict": lambda n: {f"k{i}": i for i in range(n)}, "deep": lambda n: deep(n, lambda v: [v], 1),
    "deepd": lambda n: deep(n, lambda v: {"a": v}, 1), "int": lambda n: 2 ** n, "minus": lambda n: -2 ** n,
    "inf": lambda n: math.inf, "-inf": lambda n: -math.inf, "nan": lambda n: math.nan, "surrogate": lambda n: "\ud800",
    "date": lambda n: datetime.datetime(2026, 1, 2, 3, 4, 5, n, datetime.timezone.utc), "zone": lambda n: datetime.datetime(
        2026, 1, 2, 3, 4, 5, n * 1000, datetime.timezone(datetime.timedelta(minutes=-90 if n % 2 else 345))), "decimal": lambda n: decimal.Decimal("1.5"),
    "fraction": lambda n: fractions.Fraction(1, 3), "set": lambda n: {1, 2, "x"}, "uuid": lambda n: uuid.UUID(int=n),
    "timestamp": lambda n: msgpack.Timestamp(n), "ext": lambda n: msgpack.ExtType(5, b"x" * n),
    "day": lambda n: datetime.date(2026, 1, 2), "regex": lambda n: re.compile("a+"),
    "undefined": lambda n: cbor2.undefined, "bytekeys": lambda n: {b"a": 1, b"\xff": {b"": 2}, "a": 3},
    "oddkeys": lambda n: {None: 1, True: 2, 1.5: 3, -2: {False: 4}, 2 ** 70: 5, "": 6}, "listkeys": lambda n: {(1, "x"): 1, (): [{(2,): 3}]}}
ONLY = {"json": ("surrogate",), "cbor": ("inf", "-inf", "nan", "date", "zone", "decimal", "fraction", "set", "uuid", "day", "regex", "undefined", "bytekeys",
                                             "oddkeys", "listkeys"),
        "msgpack": ("inf", "-inf", "nan", "timestamp", "ext", "bytekeys")}
SPECIAL = {n for ns in ONLY.values() for n in ns}


def expand(v):
    if isinstance(v, tuple) and len(v) == 3 and v[0] == "$":
        return WIDE[v[1]](v[2])
    if isinstance(v, list):
        return [expand(x) for x in v]
    if isinstance(v, dict):
        return {k: expand(x) for k, x in v.items()}
    return v


def wide(ser):
    for n in sorted(WIDE, key=lambda n: n in ("list", "dict")):             # the slow ones last
        if n in SPECIAL and n not in ONLY[ser] or n == "bytes" and ser == "json":
            continue
        for k in ([7] if n in SPECIAL else [31, 32, 63, 64, 65, 70, 128, 200] if n in ("int", "minus") else
                  [30, 60, 130, 260, 480] if n in ("deep", "deepd") else
                  [15, 16, 17, 31, 32, 255, 256, 257, 1100] + ([66000] if n in ("list", "dict") else [4096, 40000, 65535, 65536, 70000]) + ([1100000] if n in ("str", "text", "bytes") else [])):
            yield ("$", n, k)


SERIALIZERS = {"json": (JSONSerializer, str, json.loads, json.dumps), "cbor": (CBORSerializer, bytes, cbor2.loads, cbor2.dumps),
               "msgpack": (MsgPackSerializer, bytes, msgpack.loads, msgpack.dumps)}


class M05:
    def __init__(self):
        self.keep = {}

    def cases(self, g):
        for (name, f), ser in itertools.product(itertools.islice(field_cases(g), 400), SERIALIZERS):
            yield ser, name, f
        for turn, ser in enumerate(SERIALIZERS):
            for v in wide(ser) if g.seed % 3 == turn else ():
                if v[1] not in ("list", "dict") or v[2] < 5000:
                    yield ser, "Call", {"request_id": 1, "options": {}, "procedure": "a", "args": [v], "kwargs": {"k": v}}
                if v[1] not in ("list", "dict") or v[2] < 5000:
                    yield ser, "Event", {"subscription_id": 1, "publication_id": 2, "details": {"x": v}, "args": None, "kwargs": None}
                if v[1] == "list" or v[1] == "dict":
                    f = {"subscription_id": 1, "publication_id": 2, "details": {}, "args": [], "kwargs": {}}
                    f["args" if v[1] == "list" else "kwargs"] = v
                    yield ser, "Event", f
        it = field_cases(g)
        for _ in range(2000):
            next(it)
        while True:
            ser = g.pick(list(SERIALIZERS))
            m = g.pick(wamp.MESSAGES)
            if g.chance(0.5):
                f = gen_fields(g, m, None, ser != "json")
            else:
                f = next(it)
                m, f = wamp.BY_NAME[f[0]], f[1]
            yield ser, m.name, f

    def run(self, case):
        ser, name, f = case
        f = expand(f)
        m = wamp.BY_NAME[name]
        cls, out, loads, dumps = SERIALIZERS[ser]
        try:
            w0 = wamp.wire_of_fields(m, copy.deepcopy(f))
            if not strict_eq(loads(dumps(w0)), w0):
                return None                                 # not representable in this format
        except Exception:
            return None
        want = reported(m, copy.deepcopy(f))
        if m.payload and f["args"] is None and f["kwargs"] is not None:
            want["args"] = []
        s = self.keep.setdefault(ser, cls())
        k, data = outcome(lambda: s.serialize(make(m, f)))
        if k == "raise":
            return f"{ser}: serializing {name} {f!r} raises {describe(data)}"
        if type(data) is not out:
            return f"{ser}: serialize gives {type(data).__name__}"
        if not strict_eq(outcome(loads, data)[1], w0):
            return f"{ser}: {name} {f!r} is sent as {data!r}"
        for s2 in (s, cls()):
            k, back = outcome(s2.deserialize, data)
            if k == "raise":
                return f"{ser}: deserializing {name} {w0!r} raises {describe(back)}"
            if type(back) is not getattr(messages, name):
                return f"{ser}: {name} comes back as {type(back).__name__}"
            got = read(m, back)
            if not strict_eq(got, want):
                return f"{ser}: {name} {want!r} comes back as {got!r}"
        return None


PAYLOAD = {1: (json.loads, lambda v: json.dumps(v).encode()), 2: (msgpack.loads, msgpack.dumps), 3: (cbor2.loads, cbor2.dumps)}


class M06:
    def cases(self, g):
        for sid in (0, 1, 2, 3):
            for a in (None, [], [1], [b"x"], [b""], [1, "a"], [None], [[]], [{}], [b"x", b"y"], ["x"], [b"\x00\xff" * 20], [bytearray(b"q")]):
                for kw in (None, {}, {"a": 1}, {"a": None, "b": []}):
                    yield "encode", sid, a, kw
        for sid in list(range(-3, 20)) + [255, 256, 2 ** 31, None, "1", "json", 1.5, b"1", [], {}]:
            yield "unknown", sid, [b"x"], None
            yield "unknown", sid, [1], {"a": 1}
        for sid in (1, 2, 3):
            for v in VALUES + [[[]], [[], {}], [[], {}, 1], [{}], [{}, []], [[], []], [None], [None, {}], [[], None], [[1, 2], {"a": 1}],
                               [[1], {"a": 1}, None], [[], {}, {}], ["x"], [1], [b"x"], ["", {}], [[], "x"], [[], 0], [0, {}]]:
                yield "decode", sid, v
        for sid, ser in ((1, "json"), (2, "msgpack"), (3, "cbor")):
            for v in wide(ser) if g.seed % 3 == sid - 1 else ():
                yield "encode", sid, [v], {"k": v}
                if v[1] == "list" or v[1] == "dict":
                    yield ("encode", sid, v, None) if v[1] == "list" else ("encode", sid, [], v)
        yield "encode", 0, [("$", "bytes", 1100000)], None
        yield "raw", 0, b""
        yield "raw", 0, b"x"
        while True:
            sid = g.pick([0, 1, 2, 3])
            k = g.r.random()
            if k < 0.5:
                a = None if g.chance(0.2) else g.list(2, sid != 1, sid == 3)
                kw = None if g.chance(0.4) else g.dict(2, sid != 1, False)
                yield "encode", sid, a, kw
            elif k < 0.6:
                yield "encode", 0, [g.bytes()], None
            elif k < 0.7:
                yield "raw", 0, g.bytes()
            else:
                yield "decode", g.pick([1, 2, 3]), [g.value(2) for _ in range(g.pick([0, 1, 1, 2, 2, 2, 3, 4]))]

    def run(self, case):
        case = case[:2] + tuple(expand(x) for x in case[2:])
        what, sid = case[0], case[1]
        ser, de = payload_mod.serialize_payload, payload_mod.deserialize_payload
        if what == "raw":
            k, r = outcome(de, sid, case[2])
            if k == "raise" or not strict_eq(list(r), [[case[2]], {}]):
                return f"pass-through decoding of {case[2]!r} gives {r!r}"
            return None
        if what == "unknown":
            if isinstance(sid, (int, float)) and sid in (0, 1, 2, 3):
                return None
            for call in (lambda: ser(sid, case[2], case[3]), lambda: de(sid, b"\x80")):
                k, r = outcome(call)
                if k == "ok":
                    return f"unknown serializer id {sid!r} is accepted: {r!r}"
                if not isinstance(r, (ValueError, TypeError)):
                    return f"unknown serializer id {sid!r} raises {describe(r)}"
            return None
        if what == "encode":
            a, kw = case[2], case[3]
            a0, k0 = copy.deepcopy(a), copy.deepcopy(kw)
            k, data = outcome(ser, sid, a, kw)
            if not strict_eq(a, a0) or not strict_eq(kw, k0):
                return f"serialize_payload changed its arguments {a0!r} {k0!r}"
            if sid == 0:
                if a is None and kw is None:
                    return None if k == "ok" and data is None else f"pass-through of nothing gives {data!r}"
                good = isinstance(a, list) and len(a) == 1 and isinstance(a[0], (bytes, bytearray)) and not kw
                if not good:
                    if k == "ok":
                        return f"pass-through accepts {a0!r}, {k0!r}"
                    return None if isinstance(data, (ValueError, TypeError)) else f"pass-through {a0!r}, {k0!r} raises {describe(data)}"
                if k == "raise" or data != a[0]:
                    return f"pass-through of {a0!r} gives {data!r}"
                k, back = outcome(de, sid, data)
                return None if k == "ok" and list(back) == [[a0[0]], {}] else f"pass-through of {a0!r} comes back as {back!r}"
            loads, dumps = PAYLOAD[sid]
            try:
                v = [x for x in (a0, k0) if x is not None]
                if not strict_eq(loads(dumps(v)), v):
                    return None
            except Exception:
                return None
            if k == "raise":
                return f"serializer {sid}: encoding {a0!r}, {k0!r} raises {describe(data)}"
            if not isinstance(data, bytes):
                return f"serializer {sid}: encoding gives {type(data).__name__}"
            k, back = outcome(de, sid, data)
            if k == "raise":
                return f"serializer {sid}: decoding {data!r} raises {describe(back)}"
            want = [[] if a0 is None and k0 is not None else a0, k0]
            if not strict_eq(list(back), want):
                return f"serializer {sid}: {a0!r}, {k0!r} comes back as {back!r}"
            return None
        v = case[2]
        loads, dumps = PAYLOAD[sid]
        try:
            data = dumps(v)
            if not strict_eq(loads(data), v):
                return None
        except Exception:
            return None
        good = isinstance(v, list) and len(v) <= 2 and (len(v) < 1 or isinstance(v[0], list)) and (len(v) < 2 or isinstance(v[1], dict))
        k, r = outcome(de, sid, data)
        if not good:
            if k == "ok":
                return f"serializer {sid}: the payload {v!r} is accepted as {r!r}"
            return None if isinstance(r, (ValueError, TypeError)) else f"serializer {sid}: the payload {v!r} raises {describe(r)}"
        want = [v[0] if len(v) > 0 else None, v[1] if len(v) > 1 else None]
        if k == "raise" or not strict_eq(list(r), want):
            return f"serializer {sid}: the payload {v!r} is read as {r!r}"
        return None


OPAQUE = {"Call": "options", "Invocation": "details", "Yield": "options", "Result": "details"}


class M07(Keeper):
    def one(self, g, name):
        m = wamp.BY_NAME[name]
        p = {"serializer": g.pick([None, 0, 1, 2, 3, g.int()]), "payload": g.pick([None, b"", g.bytes()]), "binary": g.pick([None, True, False])}
        f = gen_fields(g, m)
        if name in OPAQUE and g.chance(0.1):
            f[OPAQUE[name]] = {"x_payload_serializer": 7, "a": 1}
        return name, f, p if name in OPAQUE else {}

    def cases(self, g):
        while True:
            for name in [*OPAQUE, "Publish", "Event", "Error"]:
                yield self.one(g, name)

    def run(self, case):
        name, f, p = case
        m = wamp.BY_NAME[name]
        want = reported(m, copy.deepcopy(f))
        given = {k: v for k, v in p.items() if v is not None}
        k, msg = outcome(make, m, {**f, **given})
        if k == "raise":
            return f"{name}: constructing with {f!r} and {p!r} raises {describe(msg)}"
        other = make(m, f)
        expect = {"payload": p.get("payload"), "payload_is_binary": bool(p.get("binary"))}
        full = dict(want)
        if name in OPAQUE:
            expect["payload_serializer"] = p["serializer"]
            if p["serializer"] is not None:
                full[OPAQUE[name]] = {**want[OPAQUE[name]], "x_payload_serializer": p["serializer"]}
        for _ in range(2):
            got = {n: getattr(msg, n)() if n == "payload_is_binary" else getattr(msg, n) for n in expect}
            if not strict_eq(got, expect):
                return f"{name} made with {p!r} reports {got!r}"
            got = read(m, msg)
            if not strict_eq(got, full):
                return f"{name} made with {f!r} and {p!r} reports {got!r}"
        got = read(m, other)
        if not strict_eq(got, want):
            return f"{name} made of the same values without an opaque payload reports {got!r} instead of {want!r}"
        if not strict_eq(reported(m, f), want):
            return f"{name}: the values given were changed to {f!r}"
        k, w = outcome(msg.marshal)
        if k == "raise":
            return f"{name} made with {f!r} and {p!r}: encoding raises {describe(w)}"
        if name in OPAQUE and p["serializer"] is not None and not any(strict_eq(x, full[OPAQUE[name]]) for x in w[1:4]):
            return f"{name} made with {f!r} and {p!r} encodes to {w!r}"
