"""M05, M06: serializers and the payload codec.

The codec libraries are behind assumed contracts: what they encoded decodes to a structural copy, anything else to
any value or a decoder error (models.py).  Everything of wampproto between caller and library is executed.
"""
import z3

from wampproto import messages, serializers
from wampproto.serializers import payload as payload_mod
from spec import wamp
from .common import *
from .messages import arbitrary_fields, build, prove_fields, roundtrip_args, same_value, unchanged_inputs

SERIALIZERS = [("JSON", serializers.JSONSerializer, str, 1), ("MessagePack", serializers.MsgPackSerializer, bytes, 2),
               ("CBOR", serializers.CBORSerializer, bytes, 3)]


def m05(m):
    def run(e):
        k = e.choose(3)
        name, cls, out, _ = SERIALIZERS[k]
        ob = f"M05 {name} {m.name}"
        vals = arbitrary_fields(e, m)
        msg = build(e, m, vals)
        s = e.call(cls, [], {})
        ok, data = method(e, s, "serialize", msg)
        if not ok:
            e.fail(f"{ob}: serialising does not raise", data)
            return
        e.prove(f"{ob}: the encoding is {out.__name__}", e.pytype(data) is out, info=data)
        s2 = s if e.choose(2) else e.call(cls, [], {})
        ok, r = method(e, s2, "deserialize", data)
        if not ok:
            e.fail(f"{ob}: deserialising does not raise", r)
            return
        e.cover(ob)
        e.prove(f"{ob}: same type", isinstance(r, HInst) and r.cls is getattr(messages, m.name))
        prove_fields(e, f"{ob}: after the round trip", m, r, roundtrip_args(e, m, vals))
        unchanged_inputs(e, ob)
    return run


def payload_roundtrip(e):
    """Encoding args and kwargs and decoding the result gives them back."""
    name, _, _, sid = SERIALIZERS[e.choose(3)]
    ob = f"M06 {name} payload"
    args, kwargs = maybe(e, lambda: jlist(e, "args")), maybe(e, lambda: jdict(e, "kwargs"))
    ok, data = attempt(e, payload_mod.serialize_payload, sid, args, kwargs)
    if not ok:
        e.fail(f"{ob}: encoding does not raise", data)
        return
    if data is None and args is None and kwargs is None:
        return
    e.prove(f"{ob}: the encoding is bytes", e.pytype(data) is bytes, info=data)
    ok, r = attempt(e, payload_mod.deserialize_payload, sid, data)
    if not ok:
        e.fail(f"{ob}: decoding does not raise", r)
        return
    e.cover(ob)
    two = isinstance(r, tuple) and len(r) == 2
    e.prove(f"{ob}: decoding gives args and kwargs", two, info=r)
    if two:
        want = e.track(HList()) if args is None and kwargs is not None else args
        e.prove(f"{ob}: the args are the same", same_value(e, r[0], want), info=r)
        e.prove(f"{ob}: the kwargs are the same", same_value(e, r[1], kwargs), info=r)
    unchanged_inputs(e, ob)


def pass_through(e):
    """Serializer 0 carries exactly one bytes argument, unchanged."""
    ob = "M06 pass-through"
    t = z3.Const("args", Val)
    e.assume(z3.Or(Val.is_none(t), Val.is_list(t)))
    args = SAny(t)
    first = litem(Val.lr(t), z3.IntVal(0))
    e.assume(z3.Not(z3.Or(Val.is_obj(first), Val.is_opq(first))))       # no bytearray
    kwargs = maybe(e, lambda: jdict(e, "kwargs"))
    ok, r = attempt(e, payload_mod.serialize_payload, 0, args, kwargs)
    unchanged_inputs(e, ob)
    nokw = True if kwargs is None else dcard(kwargs.r) == 0
    good = And(Val.is_list(t), llen(Val.lr(t)) == 1, Val.is_bytes(first), nokw)
    nothing = And(Val.is_none(t), kwargs is None)
    if not ok:
        e.prove(f"{ob}: a rejection is a ValueError or TypeError", is_exc(r, ValueError, TypeError), info=r)
        e.prove(f"{ob}: one bytes argument is accepted", Not(good), info=r)
        return
    e.cover(ob)
    e.prove(f"{ob}: only one bytes argument without kwargs is accepted", Or(good, nothing))
    e.prove(f"{ob}: the argument is carried unchanged", Or(nothing, same_value(e, r, SAny(first))), info=r)


def pass_through_back(e):
    ob = "M06 pass-through decoding"
    b = sbytes("payload")
    ok, r = attempt(e, payload_mod.deserialize_payload, 0, b)
    if not ok:
        e.fail(f"{ob}: does not raise", r)
        return
    e.cover(ob)
    two = isinstance(r, tuple) and len(r) == 2
    e.prove(f"{ob}: gives args and kwargs", two, info=r)
    if two:
        e.prove(f"{ob}: one argument, the payload", same_value(e, r[0], e.track(HList([b]))), info=r)
        e.prove(f"{ob}: no kwargs", same_value(e, r[1], e.track(HDict())), info=r)


def unknown_id(e):
    """Any value that is none of the four serializer ids is refused."""
    ob = "M06 unknown serializer id"
    t = z3.Const("serializer_id", Val)
    ids = z3.Or([Z(e.val_eq(t, Val.int(z3.IntVal(i)))) for i in range(4)])
    e.assume(z3.Not(ids))
    if e.choose(2):
        ok, r = attempt(e, payload_mod.serialize_payload, SAny(t), maybe(e, lambda: jlist(e, "args")), maybe(e, lambda: jdict(e, "kwargs")))
    else:
        ok, r = attempt(e, payload_mod.deserialize_payload, SAny(t), sbytes("payload"))
    if ok:
        e.fail(f"{ob}: is rejected", r)
        return
    e.cover(ob)
    e.prove(f"{ob}: with ValueError or TypeError", is_exc(r, ValueError, TypeError), info=r)


def decoding(e):
    """Decoding any bytes: exactly lists of at most an args list and a kwargs dictionary are accepted."""
    name, _, _, sid = SERIALIZERS[e.choose(3)]
    ob = f"M06 {name} decoding"
    b = sbytes("payload")
    e.length(b)                                 # (only the empty bytes have length 0)
    ok, r = attempt(e, payload_mod.deserialize_payload, sid, b)
    if not ok and r.attrs.get("__decoder__"):
        e.prove(f"{ob}: an empty payload is accepted", ylen(b.t) != 0)
        return                                  # not a document of the format
    d = z3.Function("decoded_" + {1: "json", 2: "msgpack", 3: "cbor"}[sid], I, Val)
    cands = [d(b.t), d(dec(b.t))]
    t = cands[0]
    empty = ylen(b.t) == 0
    lr = Val.lr(t)
    at = lambda i: litem(lr, z3.IntVal(i))
    wf = z3.And(Val.is_list(t), llen(lr) <= 2, z3.Implies(llen(lr) > 0, Val.is_list(at(0))),
                z3.Implies(llen(lr) > 1, Val.is_dict(at(1))))
    unchanged_inputs(e, ob)
    if not ok:
        e.prove(f"{ob}: a rejection is a ValueError or TypeError", is_exc(r, ValueError, TypeError), info=r)
        e.prove(f"{ob}: a well-formed payload is accepted", z3.Not(z3.Or(empty, wf)), info=r)
        return
    e.cover(ob)
    e.prove(f"{ob}: only well-formed payloads are accepted", z3.Or(empty, wf))
    two = isinstance(r, tuple) and len(r) == 2
    e.prove(f"{ob}: gives args and kwargs", two, info=r)
    if two:
        none = z3.Or(empty, llen(lr) == 0)
        e.prove(f"{ob}: the args", e.to_any(r[0]) == z3.If(none, Val.none, at(0)), info=r)
        e.prove(f"{ob}: the kwargs", e.to_any(r[1]) == z3.If(z3.Or(none, llen(lr) < 2), Val.none, at(1)), info=r)


def tasks_m05():
    return [Task(f"M05 {m.name}", m05(m), quantified=m.name in ("Hello", "Welcome")) for m in wamp.MESSAGES]


def tasks_m06():
    return [Task("M06 round trip", payload_roundtrip), Task("M06 pass-through", pass_through),
            Task("M06 pass-through decoding", pass_through_back), Task("M06 unknown id", unknown_id), Task("M06 decoding", decoding)]
