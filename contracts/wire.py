"""R01, R02: RawSocket handshakes and headers.  I01: id generation."""
import z3

from wampproto import idgen
from wampproto.transports import rawsocket as rs
from pyvc import models
from .common import *

AR = z3.ArraySort(I, I)


def a_bytes(e, name="data"):
    """Any byte string."""
    n, arr = z3.Int(f"{name}_len"), z3.Const(f"{name}_arr", AR)
    e.assume(n >= 0)
    return BytesArr(n, arr)


def byte(e, b, i):
    t = z3.Select(b.arr, z3.simplify(b.off + i))
    e.fact(("byte", t), z3.And(t >= 0, t <= 255))
    return t


def new(e, cls, *args):
    return attempt(e, cls, *args)


def handshake_make(e):
    ob = "R01 sending"
    p, n = z3.Ints("protocol size")
    e.assume(z3.And(p >= 0, p <= 15, n > 0))
    ok, h = new(e, rs.Handshake, SInt(p), SInt(n))
    if not ok:
        e.prove(f"{ob}: a refusal is a ValueError", is_exc(h, ValueError))
        e.prove(f"{ob}: limits from 512 to 2^24 are accepted", Or(n < 512, n > 2 ** 24))
        return
    e.prove(f"{ob}: the object reports what it was made of",
            And(same(e, h, "protocol", SInt(p)), same(e, h, "max_msg_size", SInt(n))))
    ok, b = method(e, h, "to_bytes")
    if not ok:
        e.prove(f"{ob}: a refusal is a ValueError", is_exc(b, ValueError))
        e.prove(f"{ob}: limits from 512 to 2^24 are accepted", Or(n < 512, n > 2 ** 24))
        return
    e.cover(ob)
    if e.pytype(b) is not bytes or not isinstance(b, (bytes, BytesItems)):
        e.fail(f"{ob}: four bytes", b)
        return
    items = e.byte_items(b)
    e.prove(f"{ob}: four bytes", len(items) == 4)
    if len(items) != 4:
        return
    e.prove(f"{ob}: magic and reserved bytes", And(Z(iv(items[0]) == 0x7F), iv(items[2]) == 0, iv(items[3]) == 0))
    ok, r = attempt(e, e.getattr(rs.Handshake, "from_bytes"), b)
    if not ok:
        e.fail(f"{ob}: the other side can read it", r)
        return
    e.prove(f"{ob}: same serializer after decoding", same(e, r, "protocol", SInt(p)))
    m = e.num(e.getattr(r, "max_msg_size"))
    if m is None:
        e.fail(f"{ob}: the size limit is an integer")
        return
    e.prove(f"{ob}: the decoded limit is the largest power of two not above the limit",
            And(m <= n, n < 2 * m, z3.Or([m == 2 ** k for k in range(9, 25)])))


def same(e, o, name, v):
    ok, got = attempt(e, External("getattr", {"__call__": lambda en, a, k: en.getattr(o, name)}))
    return e.eq(got, v) if ok else False


def handshake_read(e):
    ob = "R01 reading"
    b = a_bytes(e)
    ok, r = attempt(e, e.getattr(rs.Handshake, "from_bytes"), b)
    good = z3.And(b.len == 4, byte(e, b, 0) == 0x7F, byte(e, b, 2) == 0, byte(e, b, 3) == 0)
    if not ok:
        e.prove(f"{ob}: a rejection is a ValueError", is_exc(r, ValueError), info=r)
        e.prove(f"{ob}: only malformed handshakes are rejected", z3.Not(good), info=r)
        return
    e.cover(ob)
    e.prove(f"{ob}: only well-formed handshakes are accepted", good)
    b1 = byte(e, b, 1)
    e.prove(f"{ob}: serializer from the low nibble", same(e, r, "protocol", SInt(b1 % 16)))
    m = e.num(e.getattr(r, "max_msg_size"))
    e.prove(f"{ob}: size from the high nibble",
            False if m is None else z3.And([z3.Implies(b1 / 16 == k, m == 2 ** (k + 9)) for k in range(16)]))


def header_make(e):
    ob = "R02 header"
    k, n = z3.Ints("kind length")
    good = z3.And(k >= 0, k <= 255, n >= 0, n < 2 ** 24)
    ok, h = new(e, rs.MessageHeader, SInt(k), SInt(n))
    if not ok:
        e.prove(f"{ob}: a refusal is a ValueError", is_exc(h, ValueError))
        e.prove(f"{ob}: every kind and length in range is accepted", z3.Not(good))
        return
    e.prove(f"{ob}: the object reports what it was made of", And(same(e, h, "kind", SInt(k)), same(e, h, "length", SInt(n))))
    ok, b = method(e, h, "to_bytes")
    if not ok:
        e.prove(f"{ob}: a refusal is a ValueError", is_exc(b, ValueError))
        e.prove(f"{ob}: every kind and length in range is accepted", z3.Not(good))
        return
    e.cover(ob)
    e.prove(f"{ob}: kinds and lengths out of range are refused", good)
    e.prove(f"{ob}: kind and big-endian length", e.eq(b, BytesItems([k, n / 65536, (n / 256) % 256, n % 256])))
    ok, r = attempt(e, e.getattr(rs.MessageHeader, "from_bytes"), b)
    if not ok:
        e.fail(f"{ob}: the header can be read", r)
        return
    e.prove(f"{ob}: same kind and length after decoding", And(same(e, r, "kind", SInt(k)), same(e, r, "length", SInt(n))))


def header_read(e):
    ob = "R02 reading a header"
    xs = z3.Ints("b0 b1 b2 b3")
    for x in xs:
        e.assume(z3.And(x >= 0, x <= 255))
    b = BytesItems(xs)
    ok, r = attempt(e, e.getattr(rs.MessageHeader, "from_bytes"), b)
    if not ok:
        e.fail(f"{ob}: every four bytes are a header", r)
        return
    e.cover(ob)
    n = xs[1] * 65536 + xs[2] * 256 + xs[3]
    e.prove(f"{ob}: kind and length", And(same(e, r, "kind", SInt(xs[0])), same(e, r, "length", SInt(n))))
    ok, b2 = method(e, r, "to_bytes")
    e.prove(f"{ob}: written back unchanged", ok and e.eq(b2, b))


def int_to_bytes(e):
    ob = "R02 int_to_bytes"
    n = z3.Int("n")
    e.assume(z3.And(n >= 0, n < 2 ** 24))
    ok, b = attempt(e, rs.int_to_bytes, SInt(n))
    if not ok:
        e.fail(f"{ob}: every 24-bit integer can be written", b)
        return
    e.cover(ob)
    e.prove(f"{ob}: big-endian", e.eq(b, BytesItems([n / 65536, (n / 256) % 256, n % 256])))
    ok, r = attempt(e, rs.bytes_to_int, b)
    e.prove(f"{ob}: inverse", ok and e.eq(r, SInt(n)))


def bytes_to_int_short(size):
    def run(e):
        ob = f"R02 bytes_to_int of {size} bytes"
        xs = [z3.Int(f"b{i}") for i in range(size)]
        for x in xs:
            e.assume(z3.And(x >= 0, x <= 255))
        ok, r = attempt(e, rs.bytes_to_int, BytesItems(xs))
        e.cover(ob)
        t = z3.IntVal(0)
        for x in xs:
            t = t * 256 + x
        e.prove(f"{ob}: big-endian value", ok and And(e.pytype(r) is int, e.eq(r, SInt(t))))
        if size == 3 and ok:
            ok, b = attempt(e, rs.int_to_bytes, r)
            e.prove(f"{ob}: inverse", ok and e.eq(b, BytesItems(xs)))
    return run


# the value of a byte string of any length; VAL(arr, off, k): its first k bytes, as big-endian number
VAL = z3.Function(models.BIGVAL, AR, I, I, I)
LOW = z3.Function("lowval", AR, I, I, I, I)     # LOW(arr, off, n, k): the last k of n bytes


def t_high(e, it, k):
    """big-endian value of the first k elements"""
    a = array_of(e, it)
    if a is None:
        return None
    arr, off, rev = a
    if rev:
        return None
    k = z3.simplify(k)
    e.fact(("VAL", arr, off, k), z3.And(VAL(arr, off, z3.IntVal(0)) == 0,
                                        VAL(arr, off, z3.simplify(k + 1)) == VAL(arr, off, k) * 256 + z3.Select(arr, z3.simplify(off + k))))
    return VAL(arr, off, k)


def t_low(e, it, k):
    """big-endian value of the last k elements (the loop runs backwards)"""
    a = array_of(e, it)
    if a is None or not a[2]:
        return None
    arr, off, _ = a
    k = z3.simplify(k)
    p, q = p2(z3.simplify(8 * k)), p2(z3.simplify(8 * (k + 1)))
    L = lambda j: LOW(arr, off, it.n, z3.simplify(j))
    b = z3.Select(arr, z3.simplify(off + it.n - 1 - k))
    # definition; the bound 0 <= LOW < 2^(8k) is the lemma proved in lemma_low_bound
    e.fact(("LOW", arr, off, it.n, k), z3.And(L(z3.IntVal(0)) == 0, p2(z3.IntVal(0)) == 1, L(k + 1) == L(k) + b * p, q == 256 * p,
                                             p >= 1, L(k) >= 0, L(k) < p))
    # lemma_low_high at k = n: the value of the last n of n bytes is the value of all
    e.fact(("LOWn", arr, off, it.n), L(it.n) == VAL(arr, off, it.n))
    return L(k)


def t_pow(e, it, k):
    """256^k"""
    p = p2(z3.simplify(8 * k))
    e.fact(("pow", z3.simplify(k)), z3.And(p2(z3.IntVal(0)) == 1, p >= 1, p2(z3.simplify(8 * (k + 1))) == 256 * p))
    return p


def array_of(e, it):
    """(array, offset, backwards) of the sequence iterated."""
    ts = [x.t for x in (it.elem if isinstance(it.elem, tuple) else (it.elem,)) if isinstance(x, SInt) and z3.is_select(x.t)]
    if len(ts) != 1:
        return None
    t = ts[0]
    arr, ix = t.arg(0), t.arg(1)
    for rev in (False, True):
        off = z3.simplify(ix - it.i) if not rev else z3.simplify(ix + it.i - it.n + 1)
        if not mentions(off, [it.i]):
            return arr, off, rev
    return None


def setup_bytes(e):
    e.seq_templates = [("value of the bytes read so far, from the front", t_high), ("value of the bytes read so far, from the back", t_low),
                       ("shift = 8 * bytes read", lambda en, it, k: z3.simplify(8 * k)), ("count of bytes read", lambda en, it, k: k),
                       ("256^(bytes read)", t_pow)]


def bytes_to_int_any(e):
    ob = "R02 bytes_to_int"
    b = a_bytes(e)
    ok, r = attempt(e, rs.bytes_to_int, b)
    if not ok:
        e.fail(f"{ob}: every byte string has a value", r)
        return
    e.cover(ob)
    n = e.num(r)
    e.prove(f"{ob}: big-endian value, any length", False if n is None else n == VAL(b.arr, b.off, b.len))


def lemmas(e):
    """Induction steps of the facts used about values of byte strings."""
    ob = "R02 lemma"
    L, P, b, Hn, Hm = z3.Ints("L P b Hn Hm")
    e.cover(ob)
    e.prove(f"{ob}: 0 <= low(k) < 256^k, base", And(z3.IntVal(0) >= 0, z3.IntVal(0) < 1))
    e.prove(f"{ob}: 0 <= low(k) < 256^k, step",
            z3.Implies(z3.And(P >= 1, L >= 0, L < P, b >= 0, b <= 255), z3.And(L + b * P >= 0, L + b * P < 256 * P)))
    e.prove(f"{ob}: value(n-k) * 256^k + low(k) = value(n), base", Hn * 1 + 0 == Hn)
    e.prove(f"{ob}: value(n-k) * 256^k + low(k) = value(n), step",
            z3.Implies((Hm * 256 + b) * P + L == Hn, Hm * (256 * P) + (L + b * P) == Hn))


# ---- I01 -----------------------------------------------------------------------------------------

MAX = 2 ** 53
ALLOWED_STATE = {"id"}


def gen_object(e, name, s):
    """A generator that has handed out s last (0: none)."""
    g = e.call(idgen.SessionScopeIDGenerator, [], {})
    if not isinstance(g, HInst) or set(g.attrs) != {"id"}:
        raise Unsupported(f"representation of the generator: {g!r}")
    g.attrs = {"id": SInt(s)}
    return g


def gen_init(e):
    """A new generator has handed out nothing, and its first id is 1."""
    ob = "I01 new generator"
    ok, g = attempt(e, idgen.SessionScopeIDGenerator)
    if not ok:
        e.fail(f"{ob}: construction does not raise", g)
        return
    e.cover(ob)
    ok, n = method(e, g, "next")
    e.prove(f"{ob}: the first id is 1", ok and And(e.pytype(n) is int, e.eq(n, 1)))
    g2 = e.call(idgen.SessionScopeIDGenerator, [], {})
    ok, n = method(e, g2, "next")
    e.prove(f"{ob}: a second generator starts at 1 too", ok and e.eq(n, 1))
    if isinstance(g2, HInst) and set(g2.attrs) == {"id"}:
        g3 = e.call(idgen.SessionScopeIDGenerator, [], {})
        e.prove(f"{ob}: invariant holds initially", e.eq(g3.attrs["id"], 0))
    else:
        raise Unsupported("representation of the generator")


def gen_step(e):
    """next() in any reachable state; another generator in any state does not change."""
    ob = "I01 next"
    s, s2 = z3.Ints("last last2")
    e.assume(z3.And(s >= 0, s <= MAX, s2 >= 0, s2 <= MAX))
    g, h = gen_object(e, "g", s), gen_object(e, "h", s2)
    ok, n = method(e, g, "next")
    if not ok:
        e.fail(f"{ob}: does not raise", n)
        return
    e.cover(ob)
    t = e.num(n)
    if t is None or e.pytype(n) is not int:
        e.fail(f"{ob}: an integer", n)
        return
    e.prove(f"{ob}: the successor of the last id, wrapping after 2^53", t == z3.If(s == MAX, z3.IntVal(1), s + 1))
    e.prove(f"{ob}: in 1..2^53", z3.And(t >= 1, t <= MAX))
    e.prove(f"{ob}: the id handed out is remembered", And(set(g.attrs) == {"id"}, e.eq(g.attrs.get("id"), n)))
    e.prove(f"{ob}: other generators are not affected", And(set(h.attrs) == {"id"}, e.eq(h.attrs.get("id"), SInt(s2))))


def gen_distinct(e):
    """Ghost argument: the k-th id after state s differs from the j-th for j < k <= 2^53."""
    ob = "I01 distinct"
    s, j, k = z3.Ints("s j k")
    nth = lambda d: (s + d - 1) % MAX + 1        # s in 0..2^53 handed out last; d draws later
    e.assume(z3.And(s >= 0, s <= MAX, j >= 1, j < k, k <= MAX))
    e.cover(ob)
    succ = lambda x: z3.If(x == MAX, z3.IntVal(1), x + 1)
    e.prove(f"{ob}: closed form of the sequence, base", nth(z3.IntVal(1)) == succ(s))
    e.prove(f"{ob}: closed form of the sequence, step", nth(j + 1) == succ(nth(j)))
    e.prove(f"{ob}: no id repeats within 2^53 draws", nth(j) != nth(k))


def session_id(e):
    ob = "I01 session id"
    ok, n = attempt(e, idgen.generate_session_id)
    if not ok:
        e.fail(f"{ob}: does not raise", n)
        return
    e.cover(ob)
    t = e.num(n)
    e.prove(f"{ob}: an integer in 1..2^53", False if t is None else And(e.pytype(n) is int, t >= 1, t <= MAX))


def constants(ob, want):
    """The numbers published for users are those of the WAMP specification."""
    def run(e):
        e.cover(ob)
        for n, v in want.items():
            e.prove(f"{ob}: {n} is {v}", type(getattr(rs, n, None)) is int and getattr(rs, n) == v)
    return run


KINDS_OF_MESSAGE = {"MSG_TYPE_WAMP": 0, "MSG_TYPE_PING": 1, "MSG_TYPE_PONG": 2}
SERIALIZER_NUMBERS = {"SERIALIZER_TYPE_JSON": 1, "SERIALIZER_TYPE_MSGPACK": 2, "SERIALIZER_TYPE_CBOR": 3}


def tasks_r01():
    return [Task("R01 sending", handshake_make), Task("R01 reading", handshake_read),
            Task("R01 serializer numbers", constants("R01 serializer numbers", SERIALIZER_NUMBERS))]


def tasks_r02():
    return [Task("R02 header", header_make), Task("R02 reading a header", header_read), Task("R02 int_to_bytes", int_to_bytes)] + [
        Task(f"R02 bytes_to_int of {n} bytes", bytes_to_int_short(n)) for n in range(5)] + [
        Task("R02 bytes_to_int of any length", bytes_to_int_any, setup=setup_bytes), Task("R02 lemmas", lemmas),
        Task("R02 kinds of message", constants("R02 kinds of message", KINDS_OF_MESSAGE))]


def tasks_i01():
    return [Task("I01 new generator", gen_init), Task("I01 next", gen_step), Task("I01 distinct", gen_distinct),
            Task("I01 session id", session_id)]
