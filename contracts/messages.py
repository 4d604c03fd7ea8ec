"""M01-M04: the message classes and conversion of decoded values."""
import z3

from wampproto import messages
from wampproto.serializers import serializer as serializer_mod
from spec import wamp
from .common import *

NONEMPTY_ROLES = "roles"


def roles_term(r, ok_only=True):
    """roles dictionary r: every key is a known role, and there is one."""
    k = z3.Const("rk", Val)
    known = z3.Or([k == Val.str(lit(x)) for x in wamp.ROLES])
    return z3.And(dcard(r) > 0, z3.ForAll([k], z3.Implies(dhas(r, k), known), patterns=[dhas(r, k)]))


def field_value(e, m, name, kind):
    if kind == "id":
        return int_in(e, name, 1, wamp.MAX_ID)
    if kind == "int":
        return int_in(e, name)
    if kind == "str":
        return sstr(name)
    if kind == "list":
        return jlist(e, name)
    if kind == "roles":
        v = jdict(e, name)
        e.assume(roles_term(v.r))
        return v
    return jdict(e, name)


def arbitrary_fields(e, m):
    """Field values of an arbitrary valid message: name -> value or None."""
    out = {}
    for f, k in m.wire:
        if k in wamp.DETAILS:
            for n, dk, required in wamp.DETAILS[k]:
                out[n] = field_value(e, m, n, dk) if required else maybe(e, lambda: field_value(e, m, n, dk))
        elif f in m.optional:
            out[f] = maybe(e, lambda: field_value(e, m, f, k))
        else:
            out[f] = field_value(e, m, f, k)
    if m.payload:
        out["args"] = maybe(e, lambda: jlist(e, "args"))
        out["kwargs"] = maybe(e, lambda: jdict(e, "kwargs"))
    return out


def build(e, m, vals):
    """The real message object made of the given values."""
    fcls, cls = getattr(messages, m.name + "Fields"), getattr(messages, m.name)
    kw = {k: v for k, v in vals.items() if v is not None}
    return e.call(cls, [e.call(fcls, [], kw)], {})


def empty_dict(e):
    return e.track(HDict())


def reported(e, m, vals):
    """What the getters report for the given values."""
    out = dict(vals)
    for f, k in m.wire:
        if k == "dict" and vals[f] is None or k == "welcome" and vals["authextra"] is None:
            out["authextra" if k == "welcome" else f] = empty_dict(e)
    return out


def expected_wire(e, m, vals):
    """The list the message must encode to, as engine value."""
    out = [m.code]
    rep = reported(e, m, vals)
    for f, k in m.wire:
        if k in wamp.DETAILS:
            out.append(e.track(HDict([(n, rep[n]) for n, _, _ in wamp.DETAILS[k] if rep[n] is not None])))
        else:
            out.append(rep[f])
    if m.payload:
        if vals["args"] is not None:
            out.append(vals["args"])
        if vals["kwargs"] is not None:
            if vals["args"] is None:
                out.append(e.track(HList()))
            out.append(vals["kwargs"])
    return e.track(HList(out))


def same_value(e, a, b):
    """Equal, for any mix of representations; a None only equals None."""
    a, b = e.resolve(a), e.resolve(b)
    if a is None or b is None:
        return e.identical(a, b)
    ta, tb = e.pytype(a), e.pytype(b)
    if ta is not None and tb is not None and ta is not tb:
        return False
    if ta in (bool, int) and tb is None or tb in (bool, int) and ta is None:
        return e.to_any(a) == e.to_any(b)
    return e.eq(a, b)


def prove_fields(e, ob, m, msg, want, skip=()):
    """Every getter of msg reports the wanted value."""
    for n, v in want.items():
        if n in skip:
            continue
        ok, got = attempt(e, lambda_getattr(e, msg, n))
        if not ok:
            e.fail(f"{ob}: reading {n} does not raise", got)
            continue
        e.prove(f"{ob}: {n} is as given", same_value(e, got, v), info=(got, v))


def lambda_getattr(e, msg, n):
    return External("getattr", {"__call__": lambda en, a, k: en.getattr(msg, n)})


def roundtrip_args(e, m, vals):
    want = reported(e, m, vals)
    if m.payload and vals["args"] is None and vals["kwargs"] is not None:
        want["args"] = e.track(HList())
    return want


def unchanged_inputs(e, ob):
    e.prove(f"{ob}: inputs are not modified", len(e.jmut) == 0)


def m01(m):
    ob = f"M01 {m.name}"

    def run(e):
        vals = arbitrary_fields(e, m)
        ok, r = attempt(e, External("build", {"__call__": lambda en, a, k: build(en, m, vals)}))
        if not ok:
            e.fail(f"{ob}: construction does not raise", r)
            return
        ok, w = method(e, r, "marshal")
        if not ok:
            e.fail(f"{ob}: encoding does not raise", w)
            return
        ok, r2 = attempt(e, e.getattr(getattr(messages, m.name), "parse"), w)
        if not ok:
            e.fail(f"{ob}: parsing the encoding does not raise", r2)
            return
        e.cover(ob)
        e.prove(f"{ob}: same type", isinstance(r2, HInst) and r2.cls is getattr(messages, m.name))
        prove_fields(e, f"{ob}: after the round trip", m, r2, roundtrip_args(e, m, vals))
        unchanged_inputs(e, ob)
    return run


def m02(m):
    ob = f"M02 {m.name}"

    def run(e):
        vals = arbitrary_fields(e, m)
        ok, r = attempt(e, External("build", {"__call__": lambda en, a, k: build(en, m, vals)}))
        if not ok:
            e.fail(f"{ob}: construction does not raise", r)
            return
        prove_fields(e, f"{ob}: the message object", m, r, reported(e, m, vals))
        ok, w = method(e, r, "marshal")
        if not ok:
            e.fail(f"{ob}: encoding does not raise", w)
            return
        e.cover(ob)
        want = expected_wire(e, m, vals)
        if not isinstance(w, HList):
            e.prove(f"{ob}: encodes to a list", e.pytype(w) is list)
            e.prove(f"{ob}: layout", same_value(e, w, want))
            return
        e.prove(f"{ob}: number of elements", len(w.items) == len(want.items), info=w)
        for i, (a, b) in enumerate(zip(w.items, want.items)):
            e.prove(f"{ob}: element {i}", same_value(e, a, b), info=(a, b))
    return run


def kind_term(t, k):
    """The wire value t is of the kind."""
    if k == "id":
        n = z3.If(Val.is_bool(t), z3.If(Val.bv(t), z3.IntVal(1), z3.IntVal(0)), Val.iv(t))
        return z3.And(z3.Or(Val.is_int(t), Val.is_bool(t)), n >= 1, n <= wamp.MAX_ID)
    if k == "int":
        return z3.Or(Val.is_int(t), Val.is_bool(t))
    if k in wamp.DETAILS:
        r = Val.dr(t)
        cs = [Val.is_dict(t)]
        for n, dk, required in wamp.DETAILS[k]:
            key = Val.str(lit(n))
            v = z3.If(dhas(r, key), dget(r, key), Val.none)
            if dk == "roles":
                v = dget(r, key)
                cs += [dhas(r, key), Val.is_dict(v), roles_term(Val.dr(v))]
            else:
                cs.append(z3.Or(Val.is_none(v), IS[dk](v)))
        for n, dk in wamp.CHECKED[k]:
            key = Val.str(lit(n))
            v = z3.If(dhas(r, key), dget(r, key), Val.none)
            cs.append(z3.Or(Val.is_none(v), IS[dk](v)))
        return z3.And(*cs)
    return IS[k](t)


def well_formed(e, m, t):
    r = Val.lr(t)
    at = lambda i: litem(r, z3.IntVal(i))
    code = Z(e.val_eq(at(0), Val.int(z3.IntVal(m.code))))
    cs = [Val.is_list(t), llen(r) >= m.min_len, llen(r) <= m.max_len, code]
    for i, (f, k) in enumerate(m.wire):
        cs.append(kind_term(at(1 + i), k))
    if m.payload:
        cs.append(z3.Implies(llen(r) > m.min_len, Val.is_list(at(m.min_len))))
        cs.append(z3.Implies(llen(r) > m.min_len + 1, Val.is_dict(at(m.min_len + 1))))
    return cs


def wire_fields(e, m, t):
    """name -> value a message parsed from the well-formed list t must report."""
    r = Val.lr(t)
    at = lambda i: litem(r, z3.IntVal(i))
    out = {}
    for i, (f, k) in enumerate(m.wire):
        v = at(1 + i)
        if k in wamp.DETAILS:
            for n, dk, _ in wamp.DETAILS[k]:
                key = Val.str(lit(n))
                out[n] = z3.If(dhas(Val.dr(v), key), dget(Val.dr(v), key), Val.none)
        else:
            out[f] = v
    if m.payload:
        out["args"] = z3.If(llen(r) > m.min_len, at(m.min_len), Val.none)
        out["kwargs"] = z3.If(llen(r) > m.min_len + 1, at(m.min_len + 1), Val.none)
    return out


def prove_wire_fields(e, ob, m, msg, t):
    for n, v in wire_fields(e, m, t).items():
        ok, got = attempt(e, lambda_getattr(e, msg, n))
        if not ok:
            e.fail(f"{ob}: reading {n} does not raise", got)
            continue
        got = e.resolve(got)
        if n == "authextra" and m.name == "Welcome" and isinstance(got, HDict):
            e.prove(f"{ob}: {n} is the received one", z3.And(Val.is_none(v), len(got.entries) == 0))
            continue
        if isinstance(got, HDict) or isinstance(got, HList):
            e.prove(f"{ob}: {n} is the received one", same_value(e, got, SAny(v)), info=(got, v))
            continue
        e.prove(f"{ob}: {n} is the received one", e.to_any(got) == v, info=(got, v))


def m03(m):
    ob = f"M03 {m.name}"

    def run(e):
        t = z3.Const("wire", Val)
        ok, r = attempt(e, e.getattr(getattr(messages, m.name), "parse"), SAny(t))
        wf = well_formed(e, m, t)
        unchanged_inputs(e, ob)
        if not ok:
            e.prove(f"{ob}: a rejection is a ValueError", is_exc(r, ValueError), info=r)
            e.prove(f"{ob}: only malformed values are rejected", z3.Not(z3.And(*wf)), info=r)
            return
        e.cover(ob)
        for i, c in enumerate(wf):
            e.prove(f"{ob}: only well-formed values are accepted ({i})", c)
        e.prove(f"{ob}: type of the result", isinstance(r, HInst) and r.cls is getattr(messages, m.name))
        prove_wire_fields(e, ob, m, r, t)
    return run


def to_message(e):
    """Conversion of any decoded value, with the parse functions behind their contracts."""
    ob = "M04 to_message"
    t = z3.Const("wire", Val)
    hook_parsers(e)
    ok, r = attempt(e, serializer_mod.to_message, SAny(t))
    unchanged_inputs(e, ob)
    first = litem(Val.lr(t), z3.IntVal(0))
    n = z3.If(Val.is_bool(first), z3.If(Val.bv(first), z3.IntVal(1), z3.IntVal(0)), Val.iv(first))
    has_code = z3.And(Val.is_list(t), llen(Val.lr(t)) > 0, z3.Or(Val.is_int(first), Val.is_bool(first)))
    if ok:
        e.cover(ob)
        good = isinstance(r, External) and isinstance(r.attrs.get("code"), int)
        e.prove(f"{ob}: the result is a parsed message", good, info=r)
        if good:
            e.prove(f"{ob}: the result is of the type its code names", z3.And(has_code, n == r.attrs["code"]))
            e.prove(f"{ob}: the result was parsed from the whole value", r.attrs["wire"] == t)
        return
    e.prove(f"{ob}: a rejection is a ValueError or TypeError", is_exc(r, ValueError, TypeError), info=r)
    if not r.attrs.get("__parser__"):
        e.prove(f"{ob}: each of the type codes is recognised",
                z3.Not(z3.And(has_code, z3.Or([n == m.code for m in wamp.MESSAGES]))), info=r)


def hook_parsers(e):
    """Callee contract of every parse: a message of its class, or ValueError (established by M03)."""
    for m in wamp.MESSAGES:
        cls = getattr(messages, m.name)
        fn = cls.__dict__["parse"].__func__

        def hook(en, args, kwargs, m=m, cls=cls):
            a = args[1] if len(args) > 1 else kwargs["msg"]
            if en.choose(2):
                x = en.exc(ValueError)
                x.attrs["__parser__"] = True
                raise PyRaise(x)
            return External(m.name, cls=cls, attrs={"code": m.code, "wire": en.to_any(a)})
        e.hooks[fn] = hook


ANNOUNCED = "x_payload_serializer"
OPAQUE = {"Call": "options", "Invocation": "details", "Yield": "options", "Result": "details"}
NEVER_OPAQUE = ("Publish", "Event", "Error")


def m07(m):
    """A message made with an opaque payload reports it and announces its serializer; its other fields are as given."""
    ob, where = f"M07 {m.name}", OPAQUE[m.name]

    def run(e):
        vals = arbitrary_fields(e, m)
        sid, payload = maybe(e, lambda: int_in(e, "payload_serializer")), maybe(e, lambda: sbytes("payload"))
        binary = SBool(z3.Bool("binary")) if e.choose(2) else None
        given = {**vals, "serializer": sid, "payload": payload, "binary": binary}
        ok, r = attempt(e, External("build", {"__call__": lambda en, a, k: build(en, m, given)}))
        if not ok:
            e.fail(f"{ob}: construction does not raise", r)
            return
        # another message shares the dictionary given
        ok, other = attempt(e, External("build", {"__call__": lambda en, a, k: build(en, m, vals)}))
        if not ok:
            e.fail(f"{ob}: construction does not raise", other)
            return
        e.cover(ob)
        want = reported(e, m, vals)
        for again in range(2):
            prove_fields(e, ob, m, r, {"payload": payload, "payload_serializer": sid})
            ok, b = method(e, r, "payload_is_binary")
            e.prove(f"{ob}: the binary flag is as given", ok and e.pytype(b) is bool and Iff(e.truth(b), e.truth(binary) if binary is not None else False), info=b)
            prove_fields(e, ob, m, r, want, skip=(where,) if sid is not None else ())
            if sid is None:
                continue
            ok, d = attempt(e, lambda_getattr(e, r, where))
            e.prove(f"{ob}: the {where} are a dictionary", ok and e.pytype(d) is dict, info=d)
            if not ok or e.pytype(d) is not dict:
                return
            v = e.dict_find(d, ANNOUNCED)
            e.prove(f"{ob}: the payload serializer is announced", v is not MISSING and same_value(e, v, sid), info=d)
            k = z3.Const("some_key", Val)
            e.assume(z3.And(Val.is_str(k), k != Val.str(lit(ANNOUNCED))))
            v, w = e.dict_find(d, SAny(k)), e.dict_find(want[where], SAny(k))
            e.prove(f"{ob}: the other {where} are as given", (v is MISSING) == (w is MISSING) and (v is MISSING or same_value(e, v, w)), info=(v, w))
        ok, wire = method(e, r, "marshal")
        ok = ok and e.pytype(wire) is list
        e.prove(f"{ob}: is encoded to a list", ok, info=wire)
        if ok and sid is not None:
            at = 1 + [f for f, _ in m.wire].index(where)
            d = e.items_of(e.resolve(wire))[at]
            ok = e.pytype(d) is dict
            v = e.dict_find(d, ANNOUNCED) if ok else MISSING
            e.prove(f"{ob}: the encoding announces the payload serializer", v is not MISSING and same_value(e, v, sid), info=d)
        prove_fields(e, f"{ob}: a message without payload made of the same values", m, other, want)
        unchanged_inputs(e, ob)
    return run


def m07_none(m):
    ob = f"M07 {m.name}"

    def run(e):
        ok, r = attempt(e, External("build", {"__call__": lambda en, a, k: build(en, m, arbitrary_fields(en, m))}))
        if not ok:
            e.fail(f"{ob}: construction does not raise", r)
            return
        e.cover(ob)
        ok, b = method(e, r, "payload_is_binary")
        e.prove(f"{ob}: its payload is not opaque", ok and e.pytype(b) is bool and Not(e.truth(b)), info=b)
        ok, p = attempt(e, lambda_getattr(e, r, "payload"))
        e.prove(f"{ob}: it has no opaque payload", ok and e.identical(p, None), info=p)
    return run


def tasks_m07():
    return ([Task(f"M07 {n}", m07(wamp.BY_NAME[n]), needs=[f"M07 {n}"]) for n in OPAQUE] +
            [Task(f"M07 {n}", m07_none(wamp.BY_NAME[n]), needs=[f"M07 {n}"]) for n in NEVER_OPAQUE])


def tasks_m01():
    return [Task(f"M01 {m.name}", m01(m), quantified=m.name in ("Hello", "Welcome")) for m in wamp.MESSAGES]


def tasks_m02():
    return [Task(f"M02 {m.name}", m02(m), quantified=m.name in ("Hello", "Welcome")) for m in wamp.MESSAGES]


def tasks_m03():
    return [Task(f"M03 {m.name}", m03(m), quantified=m.name in ("Hello", "Welcome"), budget=500,
                 weight={"Hello": 5, "Welcome": 9}.get(m.name, 1)) for m in wamp.MESSAGES]


def tasks_m04():
    return [Task("M04 to_message", to_message)]
