"""H01: the real Joiner, Acceptor, client authenticators and serializers run against each other.

Everything of wampproto is executed on arbitrary credentials; the JSON, CBOR and MessagePack libraries, HMAC and Ed25519
are behind their assumed contracts.  The router's authenticator is any that accepts these credentials.
"""
import z3

from wampproto import acceptor as acceptor_mod
from wampproto import auth, joiner as joiner_mod, messages, types
from wampproto.auth import wampcra
from wampproto.auth.auth import WAMPCRASaltedResponse
from wampproto.exception import ApplicationError
from pyvc.models import ascii_only, b64encode_value, edok, edsig, hexs, ishex, hmac256, pbkdf2, pubkey, unhexs
from .acceptor import ABORT_REASON, eqv, field, is_a
from .codec import SERIALIZERS
from .common import *
from .crypto import hex_text, utf8
from .messages import same_value

METHODS = ["none", "anonymous", "ticket", "wampcra", "salted wampcra", "cryptosign"]


def server_ext(e, cred, granted):
    """An authenticator that accepts exactly the client's credentials."""
    def authenticate(en, args, kwargs):
        r = en.resolve(args[0] if args else kwargs["request"])
        get = lambda n: en.resolve(en.getattr(r, n))
        known = And(eqv(en, get("realm"), cred["realm"]), eqv(en, get("authid"), cred["authid"]), eqv(en, get("method"), cred["method"]))
        if cred["method"] == "ticket":
            known = And(known, eqv(en, get("ticket"), cred["ticket"]))
        if cred["method"] == "cryptosign":
            known = And(known, eqv(en, get("public_key"), cred["public_key"]))
        if not en.branch(Z(known)):
            raise PyRaise(en.exc(ValueError, "who are you"))
        if cred["method"] == "wampcra" and "salted" in cred:
            return en.call(WAMPCRASaltedResponse, [granted[0], granted[1], *cred["salted"]], {})
        if cred["method"] == "wampcra":
            return en.call(auth.WAMPCRAResponse, [granted[0], granted[1], cred["secret"]], {})
        return en.call(auth.Response, list(granted), {})
    return External("router authenticator", {"authenticate": authenticate})


def client(e, meth, cred, wrong):
    """The client's authenticator, made by the real classes."""
    extra = maybe(e, lambda: jdict(e, "extra"))
    kw = {} if extra is None and e.choose(2) else {"auth_extra": extra}
    authid = cred["authid"] = sstr("authid")
    if meth == "anonymous":
        return e.call(auth.AnonymousAuthenticator, [authid], kw)
    if meth == "ticket":
        cred["ticket"] = sstr("ticket")
        mine = cred["ticket"]
        if wrong:
            mine = sstr("other_ticket")
            e.assume(mine.t != cred["ticket"].t)
        return e.call(auth.TicketAuthenticator, [authid, mine], kw)
    if meth == "salted wampcra":
        # the router stores what the password derives to
        pw, salt = sstr("secret"), sstr("salt")
        mine, it, kl = pw, int_in(e, "iterations", 1, 2 ** 31 - 1), int_in(e, "keylen", 1, 2 ** 31 - 1)
        key = lambda w: e.bytes_term(b64encode_value(e, SBytes(pbkdf2(utf8(e, w), utf8(e, salt), it.t, kl.t))))
        cred["salted"] = [SStr(dec(key(pw))), salt, it, kl]
        if wrong:
            mine = sstr("other_secret")
            m = z3.Int("hm")
            # ideal derivation and MAC: another password, other codes
            e.assume(z3.ForAll([m], hmac256(key(mine), m) != hmac256(key(pw), m), patterns=[hmac256(key(mine), m)]))
        return e.call(auth.WAMPCRAAuthenticator, [authid, mine], kw)
    if meth == "wampcra":
        cred["secret"] = sstr("secret")
        mine = cred["secret"]
        if wrong:
            mine = sstr("other_secret")
            m, k1, k2 = z3.Ints("hm hk1 hk2")
            e.assume(utf8(e, mine) != utf8(e, cred["secret"]))
            # ideal MAC: under different secrets, different codes
            e.assume(z3.ForAll([m], hmac256(utf8(e, mine), m) != hmac256(utf8(e, cred["secret"]), m),
                               patterns=[hmac256(utf8(e, mine), m)]))
        return e.call(auth.WAMPCRAAuthenticator, [authid, mine], kw)
    priv = hex_text(e, "private_key", 32)
    pk = pubkey(unhexs(priv.t))
    k = Val.str(lit("pubkey"))
    e.assume(z3.And(ishex(hexs(pk)), ascii_only(hexs(pk)), unhexs(hexs(pk)) == pk, ylen(pk) == 32))
    if wrong:
        # announces a key that is not its own
        other = hex_text(e, "registered_key", 32)
        e.assume(unhexs(other.t) != pk)
        m, seed = z3.Int("hm"), unhexs(priv.t)
        signed = yconcat(edsig(seed, m), m)
        # ideal signatures: what one key signed is not valid under another
        e.assume(z3.ForAll([m], z3.Not(edok(unhexs(other.t), signed)), patterns=[edok(unhexs(other.t), signed)]))
        extra = extra or jdict(e, "extra")
        kw = {"auth_extra": extra}
        e.assume(z3.And(dhas(extra.r, k), dget(extra.r, k) == Val.str(other.t)))
        cred["public_key"] = other
    else:
        cred["public_key"] = SStr(hexs(pk))
        if extra is not None:
            e.assume(z3.Implies(dhas(extra.r, k), dget(extra.r, k) == Val.str(hexs(pk))))
    if extra is not None:
        e.assume(z3.Implies(dhas(extra.r, k), dcard(extra.r) > 0))
    return e.call(auth.CryptoSignAuthenticator, [authid, priv], kw)


def handshake(meth, ser, wrong):
    name, cls, _, _ = SERIALIZERS[ser]

    def run(e):
        ob = f"H01 {meth} over {name}" + (" with wrong credentials" if wrong else "")
        # another client and router were there before
        first = e.call(joiner_mod.Joiner, [sstr("earlier_realm")], {
            "authenticator": e.call(auth.CryptoSignAuthenticator, [sstr("earlier_authid"), hex_text(e, "earlier_key", 32)], {})})
        router = e.call(acceptor_mod.Acceptor, [], {})
        ok, data = method(e, first, "send_hello")
        if ok:
            method(e, router, "receive", data)
        realm = sstr("realm")
        cred = {"realm": realm, "method": meth.split()[-1]}
        granted = (sstr("granted_authid"), sstr("granted_authrole")) if meth != "none" else ("anonymous", "anonymous")
        c = client(e, meth, cred, wrong) if meth != "none" else None
        joiner = e.call(joiner_mod.Joiner, [realm, e.call(cls, [], {})] + ([c] if c is not None else []), {})
        acceptor = e.call(acceptor_mod.Acceptor, [e.call(cls, [], {})], {"authenticator": server_ext(e, cred, granted) if meth != "none" else None})
        ok, data = method(e, joiner, "send_hello")
        e.prove(f"{ob}: HELLO is sent", ok, info=data)
        if not ok:
            return
        for rounds in range(3):
            ok, r = method(e, acceptor, "receive", data)
            good = ok and isinstance(r, tuple) and len(r) == 2 and e.resolve(r[0]) is not None
            e.prove(f"{ob}: the acceptor answers", good, info=r)
            if not good:
                return
            reply, final = r
            ok, r = method(e, joiner, "receive", reply)
            r = e.resolve(r)
            if not ok:
                refused = is_exc(r, ApplicationError)
                e.prove(f"{ob}: the joiner accepts the answer", wrong and refused, info=r)
                if wrong and refused:
                    e.cover(f"{ob}: refused")
                    e.prove(f"{ob}: refused with authentication_failed", eqv(e, field(e, r, "message"), ABORT_REASON), info=r)
                    ok, v = method(e, acceptor, "is_aborted")
                    e.prove(f"{ob}: the acceptor is aborted", ok and e.truth(v), info=v)
                    ok, v = method(e, joiner, "get_session_details")
                    e.prove(f"{ob}: no session details after ABORT", not ok, info=v)
                return
            if r is not None:
                data = r
                continue
            e.prove(f"{ob}: joins only with the right credentials", not wrong)
            if wrong:
                return
            e.cover(f"{ob}: joined")
            e.prove(f"{ob}: WELCOME is reported as final", e.truth(final), info=final)
            ok1, x = method(e, joiner, "get_session_details")
            ok2, y = method(e, acceptor, "get_session_details")
            e.prove(f"{ob}: both report session details", ok1 and ok2, info=(x, y))
            if ok1 and ok2:
                for n in ("session_id", "realm", "authid", "authrole"):
                    e.prove(f"{ob}: both report the same {n}", eqv(e, field(e, x, n), field(e, y, n)), info=(x, y))
                e.prove(f"{ob}: the realm is the one asked for", eqv(e, field(e, x, "realm"), realm), info=x)
                e.prove(f"{ob}: the authid is the one granted", eqv(e, field(e, x, "authid"), granted[0]), info=x)
                e.prove(f"{ob}: the authrole is the one granted", eqv(e, field(e, x, "authrole"), granted[1]), info=x)
                e.prove(f"{ob}: the session details are equal", e.eq(x, y), info=(x, y))
            return
        e.fail(f"{ob}: the handshake ends")
    return run


def session_details(e):
    """Session details report what they were made of, and are equal exactly when all four values are."""
    ob = "H01 session details"
    given = [[int_in(e, f"id_{w}"), sstr(f"realm_{w}"), sstr(f"authid_{w}"), sstr(f"authrole_{w}")] for w in "ab"]
    made = [attempt(e, types.SessionDetails, *g) for g in given]
    e.prove(f"{ob}: can be made", all(ok for ok, _ in made), info=made)
    if not all(ok for ok, _ in made):
        return
    e.cover(ob)
    a, b = [x for _, x in made]
    same_values = z3.And([Z(eqv(e, x, y)) for x, y in zip(*given)])
    for _ in range(2):
        for x, g in ((a, given[0]), (b, given[1])):
            for n, v in zip(("session_id", "realm", "authid", "authrole"), g):
                e.prove(f"{ob}: report the {n} they were made of", same_value(e, field(e, x, n), v), info=n)
        eq = lambda x, y: attempt(e, External("==", {"__call__": lambda en, args, k: en.eq(x, y)}))
        ok, r = eq(a, b)
        e.prove(f"{ob}: are equal exactly when all four values are", ok and Iff(r if isinstance(r, (bool, z3.BoolRef)) else e.truth(r), same_values), info=r)
        for other in (None, given[0][1], e.track(HList(given[0]))):
            ok, r = eq(a, other)
            e.prove(f"{ob}: are not equal to anything else", ok and Not(r if isinstance(r, (bool, z3.BoolRef)) else e.truth(r)), info=r)


def tasks_h01():
    out = [Task("H01 session details", session_details, needs=["H01 session details"])]
    for i, (name, *_) in enumerate(SERIALIZERS):
        for meth in METHODS:
            for wrong in (False, True) if meth in ("ticket", "wampcra", "salted wampcra", "cryptosign") else (False,):
                ob = f"H01 {meth} over {name}" + (" with wrong credentials" if wrong else "")
                out.append(Task(ob, handshake(meth, i, wrong), budget=300, weight=2, doc="the whole handshake, for all credentials",
                                needs=[ob + (": refused" if wrong else ": joined")]))
    return out
