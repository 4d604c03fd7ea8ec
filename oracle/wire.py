"""R01, R02, I01 on CPython."""
from wampproto import idgen
from wampproto.transports import rawsocket as rs
from .base import describe, outcome

SIZES = sorted({s + d for k in range(0, 34) for s in [2 ** k] for d in (-2, -1, 0, 1, 2) if s + d > 0} | {1000, 4095, 100000, 10 ** 7, 2 ** 60, 10 ** 30})


def published(want):
    for n, v in want.items():
        if type(getattr(rs, n, None)) is not int or getattr(rs, n) != v:
            return f"{n} is {getattr(rs, n, None)!r} instead of {v}"


class R01:
    def cases(self, g):
        yield ("numbers",)
        for p in range(16):
            for n in SIZES:
                yield "make", p, n
        for b in range(256):
            yield "read", bytes([0x7F, b, 0, 0])
            for pos in (0, 2, 3):
                x = bytearray([0x7F, 0xF1, 0, 0])
                x[pos] = b
                yield "read", bytes(x)
            x = bytes([0x7F, 0x31, b, b])
            yield "read", x
        for n in range(9):
            yield "read", b"\x7f\xf1\x00\x00\x00\x00\x00\x00\x00"[:n]
            yield "read", b"\x00" * n
        while True:
            if g.chance(0.5):
                yield "make", g.int(0, 15), g.int(1)
            else:
                b = bytearray([0x7F, g.r.randrange(256), 0, 0])
                for _ in range(g.pick([0, 0, 1, 1, 2])):
                    b[g.r.randrange(4)] = g.r.randrange(256)
                yield "read", bytes(b)

    def run(self, case):
        if case[0] == "numbers":
            return published({"SERIALIZER_TYPE_JSON": 1, "SERIALIZER_TYPE_MSGPACK": 2, "SERIALIZER_TYPE_CBOR": 3})
        if case[0] == "make":
            _, p, n = case
            h = rs.Handshake(p, n)
            if h.protocol != p or h.max_msg_size != n:
                return f"Handshake({p}, {n}) reports {h.protocol}, {h.max_msg_size}"
            k, b = outcome(h.to_bytes)
            if k == "raise":
                if not isinstance(b, ValueError):
                    return f"Handshake({p}, {n}).to_bytes() raises {describe(b)}"
                return f"Handshake({p}, {n}) is refused: {describe(b)}" if 512 <= n <= 2 ** 24 else None
            if type(b) is not bytes or len(b) != 4 or b[0] != 0x7F or b[2:] != b"\x00\x00":
                return f"Handshake({p}, {n}) is sent as {b!r}"
            k, r = outcome(rs.Handshake.from_bytes, b)
            if k == "raise":
                return f"Handshake({p}, {n}), sent as {b!r}, is read with {describe(r)}"
            m = r.max_msg_size
            if r.protocol != p or not isinstance(m, int) or m != 1 << (n.bit_length() - 1):
                return f"Handshake({p}, {n}), sent as {b!r}, is read as {r.protocol}, {m}"
            return None
        b = case[1]
        good = len(b) == 4 and b[0] == 0x7F and b[2] == 0 and b[3] == 0
        k, r = outcome(rs.Handshake.from_bytes, b)
        if k == "raise":
            if not isinstance(r, ValueError):
                return f"handshake {b!r} raises {describe(r)}"
            return f"handshake {b!r} is refused: {describe(r)}" if good else None
        if not good:
            return f"handshake {b!r} is accepted"
        if r.protocol != b[1] & 15 or r.max_msg_size != 1 << ((b[1] >> 4) + 9):
            return f"handshake {b!r} is read as {r.protocol}, {r.max_msg_size}"
        return None


LENS = sorted({s + d for k in range(0, 26) for s in [2 ** k] for d in (-2, -1, 0, 1)} | {0, -1, -2 ** 24, 2 ** 32, 2 ** 24 + 5, 0x010203, 0xABCDEF, 0xFF00FF, 0x00FF00})


class R02:
    def cases(self, g):
        yield ("numbers",)
        for n in LENS:
            for kind in (0, 1, 2, 3, 7, 8, 127, 128, 255):
                yield "make", kind, n
        for kind in list(range(0, 256)) + [-1, 256, 257, 1000, -256, 2 ** 32]:
            yield "make", kind, 0x123456
            yield "make", kind, 0
        for b in (b"", b"\x00", b"\x01", b"\xff", b"\x01\x00", b"\x00\x01", b"\x01\x02\x03", b"\xff\x00\xff", b"\x01\x02\x03\x04\x05", b"\x80" * 9,
                  bytes(range(40)), b"\x00" * 20 + b"\x01"):
            yield "num", b
        while True:
            k = g.r.random()
            if k < 0.3:
                yield "make", g.int(-2, 300), g.int(-5, 2 ** 25)
            elif k < 0.6:
                yield "make", g.r.randrange(256), g.r.randrange(2 ** 24)
            elif k < 0.8:
                yield "read", bytes(g.r.randrange(256) for _ in range(4))
            else:
                yield "num", bytes(g.r.randrange(256) for _ in range(g.pick([0, 1, 2, 3, 4, 5, 8, 17, 33])))

    def run(self, case):
        if case[0] == "numbers":
            return published({"MSG_TYPE_WAMP": 0, "MSG_TYPE_PING": 1, "MSG_TYPE_PONG": 2})
        if case[0] == "make":
            _, kind, n = case
            h = rs.MessageHeader(kind, n)
            if h.kind != kind or h.length != n:
                return f"MessageHeader({kind}, {n}) reports {h.kind}, {h.length}"
            good = 0 <= kind <= 255 and 0 <= n < 2 ** 24
            k, b = outcome(h.to_bytes)
            if k == "raise":
                if good or not isinstance(b, ValueError):
                    return f"MessageHeader({kind}, {n}).to_bytes() raises {describe(b)}"
                return None
            if not good:
                return f"MessageHeader({kind}, {n}) is sent as {b!r}"
            if b != bytes([kind]) + n.to_bytes(3, "big") or type(b) is not bytes:
                return f"MessageHeader({kind}, {n}) is sent as {b!r}"
            k, r = outcome(rs.MessageHeader.from_bytes, b)
            if k == "raise":
                return f"the header {b!r} raises {describe(r)}"
            if (r.kind, r.length) != (kind, n):
                return f"the header {b!r} is read as {r.kind}, {r.length}"
            k, x = outcome(rs.int_to_bytes, n)
            if k == "raise" or x != n.to_bytes(3, "big"):
                return f"int_to_bytes({n}) gives {x!r}"
            return None
        b = case[1]
        if case[0] == "read":
            k, r = outcome(rs.MessageHeader.from_bytes, b)
            if k == "raise" or (r.kind, r.length) != (b[0], int.from_bytes(b[1:], "big")):
                return f"the header {b!r} is read as {r!r}"
            k, x = outcome(r.to_bytes)
            return None if k == "ok" and x == b else f"the header {b!r} is written back as {x!r}"
        k, n = outcome(rs.bytes_to_int, b)
        if k == "raise" or n != int.from_bytes(b, "big") or isinstance(n, bool):
            return f"bytes_to_int({b!r}) gives {n!r}"
        if len(b) == 3:
            k, x = outcome(rs.int_to_bytes, n)
            if k == "raise" or x != b:
                return f"int_to_bytes({n}) gives {x!r}"
        return None


MAX = 2 ** 53


class I01:
    history = True

    def cases(self, g):
        for start in [0, 1, 2, MAX - 3, MAX - 2, MAX - 1, MAX] + [2 ** k - 1 for k in (8, 16, 31, 32, 48, 52)] + g.hints[:10]:
            if 0 <= start <= MAX:
                yield start, [0, 0, 0, 0, 0]
                yield start, [0, 1, 0, 1, 1, 0, 2]
        for i in (g.ints + g.hints):
            if 3 <= i <= MAX:
                yield i - 3, [0] * 7
        yield 0, [0] * 3000
        while True:
            yield (0 if g.chance(0.5) else min(MAX, max(0, g.int(0, MAX)))), [g.r.randrange(3) for _ in range(g.r.randint(1, 40))]

    def run(self, case):
        """Draws from three generators; the first is moved to just after the id `start`."""
        start, draws = case
        gens = [idgen.SessionScopeIDGenerator() for _ in range(3)]
        last = [0, 0, 0]
        if start:
            if getattr(gens[0], "id", None) != 0:
                if start > 3000:
                    return None                      # the counter is kept elsewhere: only reachable by drawing
                for _ in range(start):
                    gens[0].next()
            else:
                gens[0].id = start
            last[0] = start
        for i in draws:
            k, n = outcome(gens[i].next)
            want = 1 if last[i] == MAX else last[i] + 1
            if k == "raise" or type(n) is not int or n != want:
                return f"after {last[i]} the generator gives {n!r} instead of {want}"
            last[i] = n
        n = idgen.generate_session_id()
        if type(n) is not int or not 1 <= n <= MAX:
            return f"generate_session_id() gives {n!r}"
        return self.session_ids(case)

    def session_ids(self, case):
        """The random source is driven to its extremes."""
        import random
        for pick in (lambda a, b: a, lambda a, b: b):
            saved = random.randint, random.randrange, random.getrandbits, random.random
            try:
                random.randint = pick
                random.randrange = lambda a, b=None, step=1: pick(*((0, a - 1) if b is None else (a, b - 1)))
                random.getrandbits = lambda k: pick(0, 2 ** k - 1)
                random.random = lambda: pick(0.0, 1 - 2 ** -53)
                k, n = outcome(idgen.generate_session_id)
            finally:
                random.randint, random.randrange, random.getrandbits, random.random = saved
            if k == "raise" or type(n) is not int or not 1 <= n <= MAX:
                return f"generate_session_id() gives {n!r} with the random source at an extreme"
        return None
