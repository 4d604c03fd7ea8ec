"""K01, K02: the authentication primitives and the client authenticators.

HMAC, PBKDF2 and Ed25519 are uninterpreted functions with their inverse laws (models.py): what is proved is that the
code computes the required combination of them, for all keys, secrets, challenges and signature texts.
"""
import z3

from wampproto import auth, messages
from wampproto.auth import cryptosign, wampcra
from pyvc.models import (ascii_only, b64d, b64ok, edmsg, edok, edsig, hexs, hmac256, ishex, pbkdf2, pubkey, token_of,
                         unhexs)
from .common import *
from .messages import same_value, unchanged_inputs


def utf8(e, s):
    """Term of the UTF-8 bytes of a text."""
    return e.bytes_term(e.encode(s))


def b64_is(e, text, want):
    """The text base64-decodes to the bytes (terms)."""
    y = utf8(e, text)
    return z3.And(ascii_only(e.str_term(text)), b64ok(y), b64d(y) == want)


def as_text(e, ob, v):
    """v, when it is a string; a failed obligation otherwise."""
    v = e.resolve(v)
    e.prove(f"{ob}: is text", e.pytype(v) is str, info=v)
    return v if e.pytype(v) is str else None


def drawn(e, before):
    """The random draws made since."""
    return [d for d in e.ghost.get("draws", ())[before:]]


def mark(e):
    return len(e.ghost.get("draws", ()))


# ---- K01 -------------------------------------------------------------------------------------------

def cra_verify(e):
    """verify: true exactly for base64 of the HMAC, never an exception, for every text."""
    ob = "K01 verify"
    sig, ch, key = sstr("signature"), sstr("challenge"), sbytes("key")
    good = b64_is(e, sig, hmac256(key.t, utf8(e, ch)))
    ok, r = attempt(e, wampcra.verify_wampcra_signature, sig, ch, key)
    if not ok:
        e.fail(f"{ob}: does not raise", r)
        return
    e.cover(ob)
    e.prove(f"{ob}: answers true or false", e.pytype(r) is bool, info=r)
    e.prove(f"{ob}: true exactly for the right signature", Iff(e.truth(r), good), info=r)


def cra_sign(e):
    """sign: base64 text of the HMAC; it verifies."""
    ob = "K01 sign"
    ch, key = sstr("challenge"), sbytes("key")
    ok, r = attempt(e, wampcra.sign_wampcra_challenge, ch, key)
    if not ok:
        e.fail(f"{ob}: does not raise", r)
        return
    e.cover(ob)
    s = as_text(e, f"{ob}: the signature", r)
    if s is None:
        return
    e.prove(f"{ob}: base64 of the HMAC-SHA256 of the challenge under the key", b64_is(e, s, hmac256(key.t, utf8(e, ch))))
    ok, v = attempt(e, wampcra.verify_wampcra_signature, s, ch, key)
    e.prove(f"{ob}: the signature verifies", ok and e.truth(v), info=v)


def cra_challenge_extra(e, name="extra"):
    """(extra, challenge, salted, salt, iterations, keylen): the extra of any challenge message with fields of the right types."""
    x = jdict(e, name)
    has = lambda k: dhas(x.r, Val.str(lit(k)))
    get = lambda k: dget(x.r, Val.str(lit(k)))
    e.assume(z3.And(has("challenge"), Val.is_str(get("challenge"))))
    e.assume(z3.Implies(has("salt"), z3.Or(Val.is_str(get("salt")), Val.is_none(get("salt")))))
    for k in ("iterations", "keylen"):
        e.assume(z3.Implies(has(k), z3.And(Val.is_int(get(k)), Val.iv(get(k)) >= 0, Val.iv(get(k)) < 2 ** 31)))
    salted = z3.And(has("salt"), Val.is_str(get("salt")))
    num = lambda k: z3.If(has(k), Val.iv(get(k)), z3.IntVal(0))
    return x, SStr(Val.sv(get("challenge"))), salted, SStr(Val.sv(get("salt"))), num("iterations"), num("keylen")


def cra_client(e):
    """The client signs the challenge string under its secret, or the derived key when salted: each challenge by its own parameters."""
    from pyvc.models import b64encode_value
    ob = "K01 client"
    secret = sstr("secret")
    a = e.call(auth.WAMPCRAAuthenticator, [sstr("authid"), secret], {"auth_extra": maybe(e, lambda: jdict(e, "authextra"))})
    one = cra_challenge_extra(e)
    one_msg = e.call(messages.Challenge, [e.call(messages.ChallengeFields, [sstr("method"), one[0]], {})], {})
    for turn in range(3):
        if turn == 1:
            two = cra_challenge_extra(e, "extra of another")
            two_msg = e.call(messages.Challenge, [e.call(messages.ChallengeFields, [sstr("method of another"), two[0]], {})], {})
        (x, ch, salted, salt, it, kl), msg = (two, two_msg) if turn == 1 else (one, one_msg)
        dk = pbkdf2(utf8(e, secret), utf8(e, salt), it, kl)
        key = z3.If(salted, e.bytes_term(b64encode_value(e, SBytes(dk))), utf8(e, secret))
        ok, r = method(e, a, "authenticate", msg)
        if not ok:
            e.prove(f"{ob}: a refusal is a ValueError", is_exc(r, ValueError), info=r)
            e.prove(f"{ob}: refused only for zero iterations or key length", z3.And(salted, z3.Or(it == 0, kl == 0)), info=r)
            continue
        e.cover(ob)
        e.prove(f"{ob}: zero iterations or key length are refused", z3.Not(z3.And(salted, z3.Or(it == 0, kl == 0))))
        e.prove(f"{ob}: answers with AUTHENTICATE", isinstance(r, HInst) and r.cls is messages.Authenticate)
        s = as_text(e, f"{ob}: the signature", e.getattr(r, "signature"))
        if s is None:
            return
        e.prove(f"{ob}: the signature of the challenge under the secret or the derived key", b64_is(e, s, hmac256(key, utf8(e, ch))))
    unchanged_inputs(e, ob)


def cra_derive(e):
    """derive_cra_key: base64 of PBKDF2-HMAC-SHA256 with the given salt, iterations and key length."""
    ob = "K01 derived key"
    salt, secret = sstr("salt"), sstr("secret")
    it, kl = int_in(e, "iterations", 0, 2 ** 31 - 1), int_in(e, "keylen", 0, 2 ** 31 - 1)
    ok, r = attempt(e, wampcra.derive_cra_key, salt, secret, it, kl)
    if not ok:
        e.prove(f"{ob}: a refusal is a ValueError", is_exc(r, ValueError), info=r)
        e.prove(f"{ob}: refused only for zero iterations or key length", z3.Or(it.t == 0, kl.t == 0), info=r)
        return
    e.cover(ob)
    e.prove(f"{ob}: zero iterations or key length are refused", z3.And(it.t > 0, kl.t > 0))
    e.prove(f"{ob}: is bytes", e.pytype(r) is bytes, info=r)
    from pyvc.models import b64encode_value
    want = b64encode_value(e, SBytes(pbkdf2(utf8(e, secret), utf8(e, salt), it.t, kl.t)))
    e.prove(f"{ob}: base64 of the PBKDF2 key", e.eq(r, want), info=r)


def cra_generate(e):
    """The generated challenge: a JSON text with the given values, a timestamp and a fresh nonce."""
    ob = "K01 generated challenge"
    sid = int_in(e, "session", 1, 2 ** 53)
    authid, role, prov = sstr("authid"), sstr("authrole"), sstr("provider")
    for again in range(2):
        n0 = mark(e)
        ok, r = attempt(e, wampcra.generate_wampcra_challenge, sid, authid, role, prov)
        if not ok:
            e.fail(f"{ob}: does not raise", r)
            return
        s = as_text(e, ob, r)
        if s is None:
            return
        tok = token_of(e, s) if isinstance(s, SStr) else None
        if tok is None:
            raise Unsupported(f"the challenge is made without json.dumps: {s!r}")
        e.prove(f"{ob}: is JSON of an object", tok[0] == "json" and e.pytype(tok[1]) is dict)
        d = dict(tok[1].entries) if isinstance(tok[1], HDict) else dict(tok[1])
        e.cover(ob)
        want = {"session": sid, "authid": authid, "authrole": role, "authprovider": prov, "authmethod": "wampcra"}
        for k, v in want.items():
            e.prove(f"{ob}: {k}", k in d and same_value(e, d[k], v), info=d.get(k))
        e.prove(f"{ob}: has a timestamp", "timestamp" in d and e.pytype(d["timestamp"]) is str)
        e.prove(f"{ob}: has a nonce", "nonce" in d and e.pytype(d["nonce"]) is str, info=d.get("nonce"))
        nonce = e.resolve(d.get("nonce"))
        names = names_of(nonce.t) if isinstance(nonce, SStr) else set()
        if any(x.startswith("apx") for x in names):
            raise Unsupported("nonce made by an unmodelled function")
        e.prove(f"{ob}: the nonce is drawn anew", any(names_of(x[1]) & names for x in drawn(e, n0)), info=nonce)


# ---- K02 ---------------------------------------------------------------------------------------------

def hex_text(e, name, nbytes=None):
    """A text of lower-case hex digits."""
    s = sstr(name)
    t = s.t
    e.assume(z3.And(ishex(t), ascii_only(t), hexs(unhexs(t)) == t))
    e.assume(z3.And((unhexs(t) == lit(b"")) == (t == lit("")), e.slen_of(t) == 2 * ylen(unhexs(t)), ylen(unhexs(t)) >= 0))
    if nbytes is not None:
        e.assume(ylen(unhexs(t)) == nbytes)
    return s


def sign_verify(e):
    """verify: true exactly for hex of a valid signed message (of the challenge), never an exception, for every text."""
    ob = "K02 verify"
    sig, pk = sstr("signature"), sbytes("public_key")
    ch = maybe(e, lambda: hex_text(e, "challenge"))
    raw = unhexs(sig.t)
    e.assume(z3.Implies(edok(pk.t, raw), z3.And(ylen(pk.t) == 32, ylen(raw) >= 64)))
    good = z3.And(ascii_only(sig.t), ishex(sig.t), edok(pk.t, raw))
    if ch is not None:
        good = z3.And(good, edmsg(raw) == unhexs(ch.t))
    if ch is None and e.choose(2):
        ok, r = attempt(e, cryptosign.verify_cryptosign_signature, sig, pk)
    else:
        ok, r = attempt(e, cryptosign.verify_cryptosign_signature, sig, pk, ch)
    if not ok:
        e.fail(f"{ob}: does not raise", r)
        return
    e.cover(ob)
    e.prove(f"{ob}: answers true or false", e.pytype(r) is bool, info=r)
    e.prove(f"{ob}: true exactly for a valid signature of the challenge", Iff(e.truth(r), good), info=r)


def signing(e, seed):
    import nacl.signing
    return e.call(nacl.signing.SigningKey, [seed], {})


def signature_of(e, seed, ch):
    """Text the signature of a hex challenge must be."""
    return e.str_concat([SStr(hexs(edsig(seed, unhexs(ch.t)))), ch])


def sign_sign(e):
    """sign: hex signature followed by the challenge; it verifies."""
    ob = "K02 sign"
    seed, ch = sbytes("seed"), hex_text(e, "challenge")
    e.assume(ylen(seed.t) == 32)
    k = signing(e, seed)
    ok, r = attempt(e, cryptosign.sign_cryptosign_challenge, ch, k)
    if not ok:
        e.fail(f"{ob}: does not raise", r)
        return
    e.cover(ob)
    s = as_text(e, f"{ob}: the signature", r)
    if s is None:
        return
    e.prove(f"{ob}: the hex signature followed by the challenge", e.eq(s, signature_of(e, seed.t, ch)), info=s)
    for c in (ch, None):
        ok, v = attempt(e, cryptosign.verify_cryptosign_signature, s, SBytes(pubkey(seed.t)), c)
        e.prove(f"{ob}: the signature verifies under the matching key", ok and e.truth(v), info=v)


def sign_keypair(e):
    """A generated key pair: hex of a fresh 32-byte seed and of its public key."""
    ob = "K02 key pair"
    for again in range(2):
        n0 = mark(e)
        ok, r = attempt(e, cryptosign.generate_cryptosign_keypair)
        if not ok:
            e.fail(f"{ob}: does not raise", r)
            return
        e.cover(ob)
        two = isinstance(r, tuple) and len(r) == 2
        e.prove(f"{ob}: is a pair", two)
        if not two:
            return
        pub, priv = as_text(e, f"{ob}: public key", r[0]), as_text(e, f"{ob}: private key", r[1])
        if pub is None or priv is None:
            return
        p, s = e.str_term(pub), e.str_term(priv)
        e.prove(f"{ob}: hex", z3.And(ishex(p), ishex(s)))
        e.prove(f"{ob}: the keys match", unhexs(p) == pubkey(unhexs(s)))
        e.prove(f"{ob}: drawn anew", any(names_of(x[1]) & names_of(s) for x in drawn(e, n0)))


def sign_generate(e):
    """Generated challenges are hex of 32 bytes drawn anew."""
    ob = "K02 generated challenge"
    for again in range(2):
        n0 = mark(e)
        ok, r = attempt(e, cryptosign.generate_cryptosign_challenge)
        if not ok:
            e.fail(f"{ob}: does not raise", r)
            return
        e.cover(ob)
        s = as_text(e, ob, r)
        if s is None:
            return
        t = e.str_term(s)
        if any(x.startswith("apx") for x in names_of(t)):
            raise Unsupported("challenge made by an unmodelled function")
        e.prove(f"{ob}: 32 bytes in hex", z3.And(ishex(t), ylen(unhexs(t)) == 32))
        e.prove(f"{ob}: drawn anew", any(names_of(x[1]) & names_of(t) for x in drawn(e, n0)))


def sign_client(e):
    """The client announces its public key unless given one, and answers with the signature of the challenge."""
    ob = "K02 client"
    priv = hex_text(e, "private_key", 32)
    seed = unhexs(priv.t)
    extra = maybe(e, lambda: jdict(e, "authextra"))
    pkey = Val.str(lit("pubkey"))
    a = e.call(auth.CryptoSignAuthenticator, [sstr("authid"), priv], {} if extra is None and e.choose(2) else {"auth_extra": extra})
    x = e.getattr(a, "auth_extra")
    own = SStr(hexs(pubkey(seed)))
    k = Val.str(z3.Int("some_key"))
    if extra is None:
        ok, got = attempt(e, External("index", {"__call__": lambda en, aa, kk: en.index(x, "pubkey")}))
        e.prove(f"{ob}: announces its own public key", ok and same_value(e, got, own), info=got)
    else:
        had = dhas(extra.r, pkey)
        v = e.dict_find(x, "pubkey")
        from pyvc.coll import MISSING
        e.prove(f"{ob}: announces a public key", v is not MISSING)
        if v is not MISSING:
            e.prove(f"{ob}: announces its own public key unless given one",
                    z3.If(had, e.to_any(v) == dget(extra.r, pkey), e.to_any(v) == Val.str(own.t)), info=v)
        if isinstance(e.resolve(x), (JDict, HDict)):
            e.assume(k != pkey)
            w = e.dict_find(x, SAny(k))
            e.prove(f"{ob}: announces the rest of what it was given",
                    z3.Not(dhas(extra.r, k)) if w is MISSING else z3.And(dhas(extra.r, k), e.to_any(w) == dget(extra.r, k)))
    e.prove(f"{ob}: the extra it was given is not changed", not e.jmut)
    ce = jdict(e, "extra")
    ck = Val.str(lit("challenge"))
    has = z3.And(dhas(ce.r, ck), z3.Not(Val.is_none(dget(ce.r, ck))))
    ch = hex_text(e, "challenge")
    e.assume(z3.Implies(has, dget(ce.r, ck) == Val.str(ch.t)))
    msg = e.call(messages.Challenge, [e.call(messages.ChallengeFields, [sstr("method"), ce], {})], {})
    ok, r = method(e, a, "authenticate", msg)
    if not ok:
        e.prove(f"{ob}: a refusal is a ValueError", is_exc(r, ValueError), info=r)
        e.prove(f"{ob}: refused only without a challenge string", z3.Not(has), info=r)
        return
    e.cover(ob)
    e.prove(f"{ob}: without a challenge string it is refused", has)
    e.prove(f"{ob}: answers with AUTHENTICATE", isinstance(r, HInst) and r.cls is messages.Authenticate)
    s = as_text(e, f"{ob}: the signature", e.getattr(r, "signature"))
    if s is not None:
        e.prove(f"{ob}: the signature of the challenge", e.eq(s, signature_of(e, seed, ch)), info=s)


def tasks_k01():
    return [Task("K01 verify", cra_verify), Task("K01 sign", cra_sign), Task("K01 client", cra_client),
            Task("K01 derived key", cra_derive), Task("K01 generated challenge", cra_generate)]


def tasks_k02():
    return [Task("K02 verify", sign_verify), Task("K02 sign", sign_sign), Task("K02 key pair", sign_keypair),
            Task("K02 generated challenge", sign_generate), Task("K02 client", sign_client)]
