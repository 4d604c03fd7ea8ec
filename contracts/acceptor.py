"""A01-A03: the router side of the handshake.

The real Acceptor is driven, from its constructor, with messages of every type and arbitrary fields, against an
authenticator that may answer or raise anything.  The specification below follows along: which answer is due and what
it holds.  A step that must leave the handshake where it was is shown to leave every attribute as it was (attributes
it does overwrite are replaced by arbitrary values and the exploration goes on), so that the states visited are closed
under every message: the argument covers histories of any length.
"""
import z3

from wampproto import acceptor as acceptor_mod
from wampproto import auth, messages
from wampproto.auth import wampcra
from wampproto.auth.auth import WAMPCRASaltedResponse
from pyvc.models import ascii_only, b64e, edmsg, edok, hexs, hmac256, ishex, token_of, unhexs
from spec import wamp
from .common import *
from .crypto import b64_is, utf8
from .messages import build, field_value, same_value
from .session import serializer_ext

ABORT_REASON = "wamp.error.authentication_failed"
REFUSALS = (ValueError, KeyError, RuntimeError)


def authenticator_ext(e):
    """An authenticator that approves or refuses as it likes, recording what it is asked."""
    def authenticate(en, args, kwargs):
        r = en.resolve(args[0] if args else kwargs["request"])
        n = len(en.ghost.get("asked", ()))
        k = en.choose(4 if is_a(r, auth.WAMPCRARequest) else 3)
        if k == 0:
            why = [sstr(f"why{n}"), sstr(f"also{n}")][:en.choose(3)]
            x = en.exc(REFUSALS[en.choose(len(REFUSALS))], *why)
            en.ghost["asked"] = en.ghost.get("asked", ()) + ((r, "refused", why),)
            raise PyRaise(x)
        a, b, secret, salt = sstr(f"resp_authid{n}"), sstr(f"resp_authrole{n}"), sstr(f"resp_secret{n}"), None
        if k == 1:
            resp = en.call(auth.Response, [a, b], {})
        elif k == 2:
            resp = en.call(auth.WAMPCRAResponse, [a, b, secret], {})
        else:
            salt = {"salt": sstr(f"resp_salt{n}"), "iterations": int_in(en, f"resp_iterations{n}", 1, 2 ** 31 - 1),
                    "keylen": int_in(en, f"resp_keylen{n}", 1, 2 ** 31 - 1)}
            resp = en.call(WAMPCRASaltedResponse, [a, b, secret, *salt.values()], {})
        en.ghost["asked"] = en.ghost.get("asked", ()) + ((r, "approved", (k >= 2, a, b, secret, salt)),)
        return resp
    return External("authenticator", {"authenticate": authenticate})


class Spec:
    """Where the handshake is: none, challenged, welcomed, aborted."""
    def __init__(self, e, prop, with_auth):
        self.e, self.prop, self.with_auth = e, prop, with_auth
        self.phase, self.method, self.hello, self.vals = "none", None, None, None
        self.challenge = self.secret = self.pubkey = self.granted = None
        self.details = None                       # (session id, realm, authid, authrole)
        self.named = None                         # the session id a WAMP-CRA challenge names

    def prove(self, props, name, f, info=None):
        if self.prop in props.split():
            self.e.prove(f"{self.prop} {name}", f, info=info)

    def fail(self, props, name, info=None):
        self.prove(props, name, False, info)


OTHER = [m for m in wamp.MESSAGES if m.name not in ("Hello", "Abort", "Authenticate")]
STEPS = [wamp.BY_NAME["Hello"], wamp.BY_NAME["Abort"], wamp.BY_NAME["Authenticate"], None]
METHODS = ["anonymous", "ticket", "wampcra", "cryptosign"]
KINDS = {"str": Val.is_str, "list": Val.is_list, "dict": Val.is_dict}


def lazy_fields(e, m, eager=()):
    """Arbitrary field values; whether an optional one is present is left open (only a test of it decides)."""
    e.ghost["built"] = e.ghost.get("built", 0) + 1
    at = f"@{e.ghost['built']}" if e.ghost["built"] > 1 else ""
    kinds = {f: k for f, k in m.wire}
    kinds.update({n: dk for _, k in m.wire if k in wamp.DETAILS for n, dk, _ in wamp.DETAILS[k]})
    kinds.update(args="list", kwargs="dict")
    out = {}
    for n in wamp.field_names(m):
        optional = n in m.optional or n in ("args", "kwargs") or any(
            n == d[0] and not d[2] for k in wamp.DETAILS for d in wamp.DETAILS[k] if (m.name.lower() == k))
        if n in eager:
            out[n] = maybe(e, lambda: field_value(e, m, n + at, kinds[n]))
        elif optional:
            t = z3.Const(f"{m.name}.{n}{at}", Val)
            e.assume(z3.Or(Val.is_none(t), KINDS[kinds[n]](t)))
            out[n] = SAny(t)
        else:
            out[n] = field_value(e, m, n + at, kinds[n])
    return out


def eqv(e, a, b):
    return Z(same_value(e, a, b))


def field(e, o, n):
    return e.resolve(e.getattr(o, n))


def is_a(v, cls):
    return isinstance(v, HInst) and v.cls is cls


def check_request(s, cls, hello_vals, extra):
    """The authenticator was asked once more, with what the client said."""
    e = s.e
    asked = e.ghost.get("asked", ())
    s.prove("A03", "the authenticator is asked exactly once", len(asked) == s.nasked + 1, info=asked)
    if len(asked) != s.nasked + 1:
        return None
    r, verdict, resp = asked[-1]
    s.nasked += 1
    s.prove("A03", f"the request is a {cls.__name__}", isinstance(r, HInst) and issubclass(r.cls, cls), info=r)
    if not isinstance(r, HInst):
        return verdict, resp
    want = {"realm": hello_vals["realm"], "authid": hello_vals["authid"], "auth_extra": hello_vals["authextra"], **extra}
    for n, v in want.items():
        s.prove("A03", f"the request has the client's {n}", eqv(e, field(e, r, n), v), info=(n, r))
    return verdict, resp


def check_welcome(s, r, authid, authrole, roles):
    e = s.e
    s.prove("A01 A02", "the answer is WELCOME", is_a(r, messages.Welcome), info=r)
    if not is_a(r, messages.Welcome):
        s.phase = "welcomed"
        return
    sid = field(e, r, "session_id")
    t = e.num(sid)
    s.prove("A03", "WELCOME has a session id in range", t is not None and z3.And(t >= 1, t <= wamp.MAX_ID), info=sid)
    drawn = set().union(*[names_of(d[1]) for d in e.ghost.get("draws", ())] or [set()])
    s.prove("A03", "the session id is drawn for this session", t is not None and bool(names_of(t) & drawn), info=sid)
    s.prove("A03", "WELCOME has the granted authid", eqv(e, field(e, r, "authid"), authid), info=r)
    s.prove("A03", "WELCOME has the granted authrole", eqv(e, field(e, r, "authrole"), authrole), info=r)
    s.prove("A03", "WELCOME has the router's roles", eqv(e, field(e, r, "roles"), roles), info=r)
    how = field(e, r, "authmethod")
    s.prove("A03", "the method WELCOME names is the one used", Or(e.identical(how, None), eqv(e, how, s.method or "anonymous")), info=r)
    if s.named is not None:
        s.prove("A03", "WELCOME has the session id the challenge named", eqv(e, sid, s.named), info=r)
    e.cover(f"{s.prop} welcomed by {s.method or 'no proof'}")
    s.phase, s.details = "welcomed", (sid, s.vals["realm"], authid, authrole)


def check_abort(s, r, why=None):
    """ABORT; for the exception an authenticator raised, with its arguments."""
    e = s.e
    s.prove("A01 A02", "a failed authentication is answered with ABORT", is_a(r, messages.Abort), info=r)
    if is_a(r, messages.Abort):
        s.prove("A02", "the reason is authentication_failed", eqv(e, field(e, r, "reason"), ABORT_REASON), info=r)
        if why is not None and s.prop == "A02":
            got = field(e, r, "args")
            s.prove("A02", "ABORT carries the arguments of the authenticator's error",
                    e.branch(e.truth(got)) is False if not why else eqv(e, got, e.track(HList(list(why)))), info=r)
    e.cover(f"{s.prop} aborted after {s.method or 'HELLO'}")
    s.phase = "aborted"


def fresh_since(e, n0):
    return set().union(*[names_of(d[1]) for d in e.ghost.get("draws", ())[n0:]] or [set()])


def check_challenge(s, r, method, n0):
    """CHALLENGE of the method; returns its challenge string, if the method has one."""
    e = s.e
    s.prove("A01 A02", "an approved request is answered with CHALLENGE", is_a(r, messages.Challenge), info=r)
    s.phase, s.method = "challenged", method
    if not is_a(r, messages.Challenge):
        return None
    s.prove("A01", "CHALLENGE names the method", eqv(e, field(e, r, "authmethod"), method), info=r)
    if method == "ticket":
        return None
    v = e.dict_find(field(e, r, "extra"), "challenge")
    ok = v is not MISSING and e.pytype(v) is str
    s.prove("A01", "CHALLENGE has a challenge string", ok, info=r)
    if not ok:
        return None
    v = e.resolve(v)
    names = names_of(e.str_term(v))
    if not names & fresh_since(e, n0):
        # through a JSON text: the nonce within
        tok = token_of(e, v) if isinstance(v, SStr) else None
        if tok is not None:
            for _, x in (tok[1].entries if isinstance(tok[1], HDict) else ()):
                x = e.resolve(x)
                if isinstance(x, SStr):
                    names = names | names_of(x.t)
    s.prove("A01", "the challenge is drawn anew", bool(names & fresh_since(e, n0)), info=v)
    return v


def check_cra_challenge(s, r, granted):
    """The WAMP-CRA challenge names whom the authenticator approved, and the salt of a salted secret comes along."""
    e = s.e
    extra = field(e, r, "extra")
    for n in ("salt", "iterations", "keylen"):
        v = e.dict_find(extra, n)
        if granted[4] is None:
            s.prove("A03", f"no {n} for a secret that is not salted", v is MISSING or e.identical(v, None), info=r)
        else:
            s.prove("A03", f"CHALLENGE has the {n} of the secret", v is not MISSING and eqv(e, v, granted[4][n]), info=r)
    tok = token_of(e, s.challenge) if isinstance(s.challenge, SStr) else None
    if tok is None or tok[0] != "json" or not isinstance(tok[1], HDict):
        raise Unsupported("what the challenge text holds is not known")
    for n, w in (("authid", granted[1]), ("authrole", granted[2]), ("authmethod", "wampcra")):
        v = e.dict_find(tok[1], n)
        s.prove("A03", f"the challenge names the {n}", v is not MISSING and eqv(e, v, w), info=tok)
    v = e.dict_find(tok[1], "session")
    s.prove("A03", "the challenge names the session", v is not MISSING, info=tok)
    s.named = None if v is MISSING else e.resolve(v)
    e.cover(f"A03 challenge with {'plain' if granted[4] is None else 'salted'} secret")


def step(s, a, m, before, roles, whole, asks):
    """One message of type m; returns what changed."""
    e = s.e
    name = m.name if m is not None else "another message"
    if m is None:
        vals, msg = None, e.track(HLazy(e, {getattr(messages, x.name): (lambda x=x: build(e, x, lazy_fields(e, x))) for x in OTHER}))
    else:
        vals = lazy_fields(e, m, ("authmethods", "authextra") if name == "Hello" and s.phase == "none" else ())
        if asks is not None and name == "Hello":
            e.assume(z3.And([wanted(vals) != Val.str(lit(x)) for x in METHODS]) if asks == "another" else wanted(vals) == Val.str(lit(asks)))
        msg = build(e, m, vals)
    if name == "Hello" and s.phase == "none" and s.with_auth:
        t = vals["authextra"]
        if t is not None:
            k = Val.str(lit("pubkey"))
            # approved public keys are hex text
            e.assume(z3.Implies(z3.And(dhas(t.r, k), z3.Not(Val.is_none(dget(t.r, k)))),
                                z3.And(Val.is_str(dget(t.r, k)), ishex(Val.sv(dget(t.r, k))), ascii_only(Val.sv(dget(t.r, k))))))
    s.nasked = len(e.ghost.get("asked", ()))
    n0 = len(e.ghost.get("draws", ()))
    answered = True
    if whole:
        s.ser_msg[0] = msg
        ok, r = method(e, a, "receive", sbytes("data"))
        if ok:
            two = isinstance(r, tuple) and len(r) == 2
            s.prove("A02", "receive gives data and finality", two, info=r)
            if not two:
                return False
            data, final = r
            data = e.resolve(data)
            if data is None:
                r, answered = None, False
            else:
                sent = e.ghost.get("serialized", ())
                good = len(sent) >= 1
                s.prove("A02", "the reply is what the serializer made of one message", good and eqv(e, data, SBytes(sent[-1][1])), info=data)
                if not good:
                    return False
                r = e.resolve(sent[-1][0])
                s.prove("A02", "a reply is final exactly when it is WELCOME or ABORT",
                        Iff(e.truth(final), isinstance(r, HInst) and r.cls in (messages.Welcome, messages.Abort)), info=(final, r))
    else:
        ok, r = method(e, a, "receive_message", msg)
        r = e.resolve(r)
        answered = r is not None
    welcome = ok and is_a(r, messages.Welcome)
    label = f"{name} when {s.phase}"
    e.cover(f"{s.prop} {label}")
    refused = False

    def due_refusal(what):
        """A ValueError that leaves the handshake as it was is due."""
        nonlocal refused
        s.prove("A02", f"{what} raises ValueError", (not ok) and is_exc(r, ValueError), info=r)
        s.prove("A01", f"{what} is not welcomed", not welcome, info=r)
        s.prove("A03", f"{what}: the authenticator is not asked", len(e.ghost.get("asked", ())) == s.nasked)
        refused = True

    if s.phase == "welcomed":
        due_refusal("a message after WELCOME")
    elif s.phase == "aborted":
        s.prove("A02", "nothing is answered after ABORT", not ok and is_exc(r, ValueError) or ok and not answered, info=r)
        s.prove("A01", "nothing is welcomed after ABORT", not welcome, info=r)
        refused = True
    elif name == "Abort":
        s.prove("A02", "ABORT is not answered", ok and not answered, info=r)
        s.prove("A01", "ABORT is not welcomed", not welcome, info=r)
        s.phase = "aborted"
    elif name == "Hello" and s.phase == "none":
        if not ok and not is_exc(r, ValueError):
            s.fail("A01 A02", "a HELLO raises ValueError at most", r)
            return False
        s.vals = vals
        if not s.with_auth:
            if not ok:
                s.fail("A01 A02", "every HELLO is welcomed without an authenticator", r)
                return False
            check_welcome(s, r, "anonymous", "anonymous", roles)
        else:
            hello_step(s, msg, vals, ok, r, roles, n0, welcome)
            refused = s.phase == "none"
    elif name == "Authenticate" and s.phase == "challenged":
        if not ok:
            s.fail("A01 A02", "AUTHENTICATE after CHALLENGE is answered", r)
            return False
        sig = vals["signature"]
        if s.method == "ticket":
            x = check_request(s, auth.TicketRequest, s.vals, {"method": "ticket", "ticket": sig})
            if x is None:
                s.prove("A01", "the ticket is shown to the authenticator", not welcome)
                return False
            verdict, resp = x
            if verdict == "approved":
                check_welcome(s, r, resp[1], resp[2], roles)
            else:
                check_abort(s, r, resp)
        else:
            if s.challenge is None:
                raise Unsupported("challenge not known")
            if s.method == "wampcra":
                good = b64_is(e, sig, hmac256(utf8(e, s.secret), utf8(e, s.challenge)))
            else:
                raw, pk, ct = unhexs(sig.t), unhexs(s.pubkey), e.str_term(s.challenge)
                e.assume(z3.Implies(edok(pk, raw), z3.And(ylen(pk) == 32, ylen(raw) >= 64)))
                good = z3.And(ascii_only(sig.t), ishex(sig.t), edok(pk, raw), edmsg(raw) == unhexs(ct))
            s.prove("A01", "WELCOME only for a valid signature of the challenge sent", Implies(welcome, good), info=r)
            s.prove("A01", "WELCOME for every valid signature of the challenge sent", Implies(good, welcome), info=r)
            if welcome:
                check_welcome(s, r, s.granted[1], s.granted[2], roles)
            else:
                check_abort(s, r)
    else:
        due_refusal(f"an unexpected message")
    after(s, a)
    if not refused:
        return True
    return changed(a, before)


def hello_step(s, msg, vals, ok, r, roles, n0, welcome):
    """HELLO as the first step, with an authenticator."""
    e = s.e
    want = wanted(vals)
    is_m = lambda n: want == Val.str(lit(n))
    pk = Val.str(lit("pubkey"))
    xr = None if vals["authextra"] is None else vals["authextra"].r
    if xr is not None:
        e.assume(z3.Implies(dhas(xr, pk), dcard(xr) > 0))      # a dictionary with an entry is not empty
    if e.branch(is_m("anonymous")):
        x = check_request(s, auth.AnonymousRequest, vals, {"method": "anonymous"})
        if x is None:
            s.prove("A01", "the authenticator is asked", not welcome)
            return
        if x[0] == "approved":
            check_welcome(s, r, x[1][1], x[1][2], roles)
        else:
            check_abort(s, r, x[1])
    elif e.branch(is_m("ticket")):
        s.prove("A03", "the authenticator is not asked before it has the ticket", len(e.ghost.get("asked", ())) == s.nasked)
        check_challenge(s, r, "ticket", n0)
    elif e.branch(is_m("wampcra")):
        x = check_request(s, auth.WAMPCRARequest, vals, {"method": "wampcra"})
        if x is None:
            s.prove("A01", "the authenticator is asked", not welcome)
            return
        if x[0] == "refused":
            check_abort(s, r, x[1])
        elif not x[1][0]:
            # the authenticator gave no secret
            s.nasked -= 1
            s.prove("A01 A02", "no secret, no WELCOME", not welcome and (not ok or is_a(r, messages.Abort)), info=r)
            s.phase = "aborted" if ok else "none"
        else:
            s.granted, s.secret = x[1], x[1][3]
            s.challenge = check_challenge(s, r, "wampcra", n0)
            if s.prop == "A03" and s.challenge is not None:
                check_cra_challenge(s, r, x[1])
    elif e.branch(is_m("cryptosign")):
        if xr is None or not e.branch(z3.And(dhas(xr, pk), z3.Not(Val.is_none(dget(xr, pk))))):
            s.prove("A01", "no public key, no WELCOME", not welcome, info=r)
            s.prove("A02", "no public key: refused", not ok and is_exc(r, ValueError) or is_a(r, messages.Abort), info=r)
            s.phase = "aborted" if ok else "none"
            return
        s.pubkey = Val.sv(dget(xr, pk))
        x = check_request(s, auth.CryptoSignRequest, vals, {"method": "cryptosign", "public_key": SAny(dget(xr, pk))})
        if x is None:
            s.prove("A01", "the authenticator is asked", not welcome)
            return
        if x[0] == "refused":
            check_abort(s, r, x[1])
        else:
            s.granted = x[1]
            s.challenge = check_challenge(s, r, "cryptosign", n0)
            if s.challenge is not None:
                t = e.str_term(s.challenge)
                s.prove("A01", "the challenge is hex", ishex(t))
    else:
        s.prove("A01", "an unknown method is not welcomed", not welcome, info=r)
        s.prove("A02", "an unknown method: refused", not ok and is_exc(r, ValueError) or is_a(r, messages.Abort), info=r)
        s.prove("A03", "an unknown method: the authenticator is not asked", len(e.ghost.get("asked", ())) == s.nasked)
        s.phase = "aborted" if ok else "none"


def after(s, a):
    """What the acceptor reports about itself."""
    e = s.e
    if s.prop in ("A02",):
        ok, v = method(e, a, "is_aborted")
        s.prove("A02", "reports being aborted exactly after ABORT", ok and Iff(e.truth(v), s.phase == "aborted"), info=v)
    if s.prop == "A03":
        ok, v = method(e, a, "get_session_details")
        if s.phase != "welcomed":
            s.prove("A03", "no session details before WELCOME", not ok and is_exc(v, ValueError), info=v)
        elif s.details is not None:
            s.prove("A03", "session details are available after WELCOME", ok, info=v)
            if ok:
                for n, w in zip(("session_id", "realm", "authid", "authrole"), s.details):
                    s.prove("A03", f"session details have the {n} of the session", eqv(e, field(e, v, n), w), info=v)


def changed(a, before):
    """Names of the attributes the step changed."""
    return {n for n in set(a.attrs) | set(before) if n not in a.attrs or n not in before or not same(a.attrs[n], before[n])}


def havoc(e, v, n):
    """An arbitrary value in place of v."""
    v = e.resolve(v)
    if isinstance(v, HInst) and v.cls is messages.Hello:
        return build(e, wamp.BY_NAME["Hello"], lazy_fields(e, wamp.BY_NAME["Hello"]))
    if isinstance(v, (SStr, str, SAny)) or v is None:
        t = z3.Const("junk_" + n, Val)
        e.assume(z3.Or(Val.is_none(t), Val.is_str(t)))
        return SAny(t)
    raise Unsupported(f"attribute {n} changed by a refused message: {v!r}")


def wanted(vals):
    """The method a HELLO asks for, as a term."""
    ml = vals["authmethods"]
    return Val.str(lit("anonymous")) if ml is None else z3.If(llen(ml.r) == 0, Val.str(lit("anonymous")), litem(ml.r, z3.IntVal(0)))


def drive(prop, first, with_auth, asks=None):
    """Histories beginning with a message of the given type (a HELLO asking for the given method)."""
    seen = {}

    def run(e):
        s = Spec(e, prop, with_auth)
        s.ser_msg = [None]
        ser = serializer_ext(e)
        ser.methods["deserialize"] = lambda en, args, kwargs: s.ser_msg[0]
        given_roles = maybe(e, lambda: jdict(e, "router_roles")) if prop == "A03" else None
        roles = given_roles if given_roles is not None else acceptor_mod.ROUTER_ROLES
        a = e.call(acceptor_mod.Acceptor, [ser], {"authenticator": authenticator_ext(e) if with_auth else None, "roles": given_roles})
        after(s, a)
        loose = set()
        for depth in range(8):
            before = dict(a.attrs)
            m = first if depth == 0 else STEPS[e.choose(len(STEPS))]
            r = step(s, a, m, before, roles, prop != "A03", asks if depth == 0 else None)
            if r is True:
                loose = set()
                continue                                   # the handshake moved on
            if r is False or not r - loose:
                return                                     # back where it was
            loose |= r
            for n in sorted(loose):
                a.attrs[n] = havoc(e, a.attrs[n], n)
            if s.phase == "none":
                # every path that leads here leads to this same state: nothing happened but to the attributes replaced
                key = tuple((n, type(v).__name__) for n, v in sorted(a.attrs.items()))
                if seen.setdefault(key, list(e.trace)) != e.trace:
                    return
        raise Unsupported("the handshake does not end")
    return run


NEEDS = {"anonymous": ["welcomed by no proof", "aborted after HELLO"], "ticket": ["welcomed by ticket", "aborted after ticket"],
         "wampcra": ["welcomed by wampcra", "aborted after wampcra", "aborted after HELLO"], "Hello": ["welcomed by no proof"],
         "cryptosign": ["welcomed by cryptosign", "aborted after cryptosign", "aborted after HELLO"]}


def tasks(prop):
    """All histories of an Acceptor, by the first message."""
    out = []
    for w in (False, True):
        for m in STEPS:
            n = m.name if m is not None else "another message"
            for asks in METHODS + ["another"] if w and n == "Hello" else [None]:
                out.append(Task(f"{prop} {'with' if w else 'without'} authenticator, {n} first" + (f" asking for {asks}" if asks else ""),
                                drive(prop, m, w, asks), budget=700, weight=9 if asks else 1,
                                doc="every history of an Acceptor that begins so",
                                needs=[f"{prop} {x}" for x in NEEDS.get(asks if w else n, ())] + (
                                    [f"A03 challenge with {x} secret" for x in ("plain", "salted")] if (prop, asks) == ("A03", "wampcra") else [])))
    return out


def tasks_a01():
    return tasks("A01")


def tasks_a02():
    return tasks("A02")


def tasks_a03():
    return tasks("A03")
