"""K01, K02 on CPython: the authentication primitives and client authenticators against hashlib, hmac and libsodium."""
import base64
import copy
import datetime
import hashlib
import hmac
import json

import nacl.bindings
import nacl.signing

from wampproto import auth, messages
from wampproto.auth import cryptosign, wampcra
from .base import STRS, describe, outcome, strict_eq

TEXTS = ["", "a", "ab", "abc", "abcd", "====", "=", "a===", "ä", "\U0001F600", "not base64!", "\x00", " ", "\n", "zz", "0", "00", "0g", "-1",
         "AAAA", "x" * 43 + "=", "\u0660\u0661"]


NOTES = {"note": "x", "channel_binding": None, "secret": "other", "key": "k", "nonce": "0", "session": 5, "hash": "sha512", "memory": [1]}


def tag(ch, key):
    return hmac.new(key, ch.encode(), "sha256").digest()


def b64(b):
    return base64.b64encode(b).decode()


def decoded(text):
    try:
        return base64.b64decode(text)
    except ValueError:
        return None


def flip(b, i, bit=1):
    return b[:i] + bytes([b[i] ^ bit]) + b[i + 1:]


def a_text(g):
    return g.pick(TEXTS) if g.chance(0.5) else g.str()


class K01:
    def cases(self, g):
        for ch in ["", "x", '{"nonce": "a"}', "äöü", "\U0001F600" * 3]:
            for key in [b"", b"secret", b"\x00" * 70, b"\xff\xfe"]:
                yield "sign", ch, key
                t = tag(ch, key)
                for s in [b64(t), b64(t[:31]), b64(t + b"\x00"), b64(b""), b64(t)[:-1], b64(t) + "\n", "\n" + b64(t), b64(t) + "=", b64(t)[:20] +
                          " " + b64(t)[20:], t.hex(), b64(t).lower(), b64(t).upper(), b64(t[::-1]), b64(tag(ch, key + b"x")), b64(tag(ch + "x", key)),
                          b64(hmac.new(key, ch.encode(), "sha1").digest()), b64(hashlib.sha256(key + ch.encode()).digest()), b64(key), b64(ch.encode()),
                          b64(t * 2), base64.urlsafe_b64encode(t).decode(), b64(t) + "ä", b64(t) + b64(t)] + TEXTS:
                    yield "verify", s, ch, key
                for i in (0, 1, 15, 30, 31):
                    for bit in (1, 128):
                        yield "verify", b64(flip(t, i, bit)), ch, key
        ends = [(t, f"c{i}") for i in range(900) for t in [tag(f"c{i}", b"k")] if 0 in (t[0], t[31]) or t[31] in b"\n \r\t"][:12]
        for t, ch in ends:                               # codes which begin or end with a zero byte or with space
            for x in (t, t.lstrip(b"\0"), t.rstrip(b"\0"), t.strip(), b"\0" + t, t + b"\0", t[1:], t[:-1]):
                yield "verify", b64(x), ch, b"k"
            yield "sign", ch, b"k"
        for salt in (None, "", "salt", "ä", "a" * 200):
            for it in (None, 0, 1, 2, 1000):
                for kl in (None, 0, 1, 16, 32, 33, 64):
                    yield "client", [("secret", salt, it, kl, "challenge")]
        for salt in ("salt", "", "ä"):
            for it in (0, 1, 3):
                for kl in (0, 1, 32, 33):
                    yield "derive", salt, "secret", it, kl
        for sec in ("x" * 63, "x" * 64, "x" * 65, "y" * 300, " padded ", "UPPER", "\u00c4" * 40, "nul\x00nul", "e\u0301", "\u212b\ufb01\uff41\u00b2", "\u0130\u0131\u017f\u1e9e",
                    "\u00a0x\u2003", "\ufeffx\u200b\u00ad"):
            yield "client", [(sec, None, None, None, "challenge"), (sec, "salt", 3, 32, "challenge"), (sec, sec, 3, 32, sec * 20)]
            yield "sign", sec * 40, sec.encode()
        for it, kl in ((4096, 32), (10000, 32), (65537, 16), (100001, 32), (1, 100), (3, 512)):
            yield "client", [("secret", "salt", it, kl, "challenge")]
            yield "derive", "salt", "secret", it, kl
        for sid in (1, 42, 2 ** 53):
            yield "gen", [(sid, "john", "admin", "provider"), (sid, "john", "admin", "provider"), (sid, "ä\"\\", "", "x")]
        while True:
            k = g.r.random()
            ch = g.str()
            key = g.bytes() if g.chance(0.6) else g.str().encode()
            if k < 0.45:
                t = tag(ch, key)
                m = g.r.random()
                if m < 0.2:
                    s = b64(t)
                elif m < 0.5:
                    s = b64(flip(t, g.r.randrange(32), 1 << g.r.randrange(8)))
                elif m < 0.6:
                    s = b64(t[:g.r.randrange(33)])
                elif m < 0.7:
                    s = b64(t)
                    i = g.r.randrange(len(s))
                    s = s[:i] + g.pick(list("=+/A\nä -_")) + s[i + g.pick([0, 1]):]
                elif m < 0.8:
                    s = b64(tag(g.str(), key))
                else:
                    s = a_text(g)
                yield "verify", s, ch, key
            elif k < 0.6:
                yield "sign", ch, key
            elif k < 0.85:
                steps = []
                sec = g.str()
                for _ in range(g.pick([1, 2, 3, 4])):
                    if g.chance(0.3):
                        sec = g.str()
                    steps.append((sec, None if g.chance(0.4) else g.str(), g.pick([None, 0, 1, 2, 7, 100]),
                                  g.pick([None, 0, 1, 2, 20, 32, 64]), g.str()))
                yield "client", steps
            elif k < 0.93:
                yield "derive", g.str(), g.str(), g.pick([0, 1, 2, 5, 50]), g.pick([0, 1, 2, 16, 32, 40])
            else:
                yield "gen", [(g.id(), g.str(), g.str(), g.str()) for _ in range(g.pick([1, 2, 3]))]

    def run(self, case):
        what = case[0]
        if what == "verify":
            _, s, ch, key = case
            want = decoded(s) == tag(ch, key)
            k, r = outcome(wampcra.verify_wampcra_signature, s, ch, key)
            if k == "raise":
                return f"verifying {s!r} raises {describe(r)}"
            if r is not want:
                return f"verifying {s!r} of {ch!r} under {key!r} gives {r!r}"
            return None
        if what == "sign":
            _, ch, key = case
            k, r = outcome(wampcra.sign_wampcra_challenge, ch, key)
            if k == "raise" or type(r) is not str or decoded(r) != tag(ch, key):
                return f"signing {ch!r} under {key!r} gives {r!r}"
            if wampcra.verify_wampcra_signature(r, ch, key) is not True:
                return "the signature made does not verify"
            return None
        if what == "derive":
            _, salt, sec, it, kl = case
            k, r = outcome(wampcra.derive_cra_key, salt, sec, it, kl)
            return self.derived(k, r, salt, sec, it, kl, lambda x: x)
        if what == "client":
            auths = {}
            for sec, salt, it, kl, ch in case[1]:
                extra = {"challenge": ch}
                for n, v in (("salt", salt), ("iterations", it), ("keylen", kl)):
                    if v is not None:
                        extra[n] = v
                if len(sec) % 2:
                    extra.update(NOTES)
                before = copy.deepcopy(extra)
                if sec not in auths:
                    auths[sec] = auth.WAMPCRAAuthenticator("john", sec)
                k, r = outcome(auths[sec].authenticate, messages.Challenge(messages.ChallengeFields("wampcra", extra)))
                if not strict_eq(extra, before):
                    return "the challenge was changed"
                if salt is None:
                    if k == "raise" or type(r) is not messages.Authenticate or decoded(r.signature) != tag(ch, sec.encode()):
                        return f"answer to {extra!r} with secret {sec!r} is {r!r}"
                    continue
                sig = (lambda m: m.signature) if k == "ok" else None
                w = self.derived(k, r, salt, sec, it or 0, kl or 0, sig, ch)
                if w:
                    return w
            return None
        if what == "gen":
            nonces = set()
            for sid, authid, role, prov in case[1]:
                k, r = outcome(wampcra.generate_wampcra_challenge, sid, authid, role, prov)
                if k == "raise" or type(r) is not str:
                    return f"challenge for {sid}, {authid!r}: {r!r}"
                k, d = outcome(json.loads, r)
                if k == "raise" or type(d) is not dict:
                    return f"challenge is not a JSON object: {r!r}"
                want = {"session": sid, "authid": authid, "authrole": role, "authprovider": prov, "authmethod": "wampcra"}
                for n, v in want.items():
                    if n not in d or not strict_eq(d[n], v):
                        return f"challenge has {n} {d.get(n)!r} instead of {v!r}"
                n = d.get("nonce")
                if type(n) is not str or len(n) < 8 or n in nonces:
                    return f"nonce {n!r} after {nonces!r}"
                nonces.add(n)
                ts = d.get("timestamp")
                if type(ts) is not str or not ts:
                    return f"timestamp {ts!r}"
                try:
                    t = datetime.datetime.fromisoformat(ts.replace("Z", "+00:00"))
                except ValueError:
                    continue
                if t.tzinfo is None:
                    t = t.replace(tzinfo=datetime.timezone.utc)
                if abs((t - datetime.datetime.now(datetime.timezone.utc)).total_seconds()) > 2 * 86400:
                    return f"timestamp {ts!r}"
            return None
        raise AssertionError(what)

    def derived(self, k, r, salt, sec, it, kl, get, ch=None):
        what = f"salt {salt!r}, secret {sec!r}, {it} iterations, key length {kl}"
        if it == 0 or kl == 0:
            return None if k == "raise" and isinstance(r, ValueError) else f"{what}: {r!r}"
        if k == "raise":
            return f"{what}: {describe(r)}"
        key = base64.b64encode(hashlib.pbkdf2_hmac("sha256", sec.encode(), salt.encode(), it, kl))
        if ch is None:
            return None if strict_eq(get(r), key) else f"{what}: derived key {r!r}"
        return None if decoded(get(r)) == tag(ch, key) else f"{what}: wrong signature {get(r)!r}"


def valid(pk, raw):
    """The message, when raw is a signed message valid under the key."""
    if len(pk) != 32 or len(raw) < 64:
        return None
    try:
        return nacl.bindings.crypto_sign_open(raw, pk)
    except Exception:
        return None


def unhex(s):
    """Bytes of a text of hex digits, None for other text (no spaces)."""
    if len(s) % 2 or any(c not in "0123456789abcdefABCDEF" for c in s):
        return None
    return bytes.fromhex(s)


def seed_of(n):
    return hashlib.sha256(b"seed%d" % n).digest()


class K02:
    def cases(self, g):
        for n in range(3):
            sk = nacl.signing.SigningKey(seed_of(n))
            pk = bytes(sk.verify_key)
            for ch in ["", "00", "ab" * 32, "00" * 32, "ff" * 64]:
                yield "sign", n, ch
                raw = bytes(sk.sign(bytes.fromhex(ch)))
                sig = raw.hex()
                for s in [sig, sig.upper(), sig[:-1], sig[:-2], sig + "00", sig[:128], sig[2:], sig + "ä", sig + " ", " " + sig, sig[:64] + " " + sig[64:],
                          "00" * 64 + ch, "0x" + sig, bytes(nacl.signing.SigningKey(seed_of(n + 1)).sign(bytes.fromhex(ch))).hex(),
                          bytes(sk.sign(bytes.fromhex(ch) + b"x")).hex(), bytes(sk.sign(b"")).hex(), bytes(sk.sign(b"\x00" * 32)).hex()] + TEXTS:
                    for c in (ch, None, "cd" * 32, ch.upper()):
                        yield "verify", s, pk, c
                for i in (0, 31, 32, 63, len(raw) - 1):
                    for bit in (1, 128):
                        yield "verify", flip(raw, i, bit).hex(), pk, ch
                        yield "verify", flip(raw, i, bit).hex(), pk, None
                for p in (b"", pk[:31], pk + b"\x00", bytes(32), b"\xff" * 32, flip(pk, 0), flip(pk, 31, 128), pk.hex().encode()):
                    yield "verify", sig, p, ch
        for n in (117, 126, 73, 485):                    # keys, and then signatures, which begin or end with a zero byte
            sk = nacl.signing.SigningKey(seed_of(n))
            pk = bytes(sk.verify_key)
            yield "sign", n, "ab" * 32
            raws = [bytes(sk.sign(bytes.fromhex(f"{i:064x}"))) for i in range(600)]
            for raw in [raws[0]] + [r for r in raws if 0 in (r[0], r[63]) or r[63] == 1][:4]:
                for p in (pk, pk.lstrip(b"\0"), pk.rstrip(b"\0"), pk.strip(b"\0"), b"\0" + pk, pk + b"\0", pk.lstrip(b"\0") + b"\0", pk[::-1]):
                    yield "verify", raw.hex(), p, raw[64:].hex()
                for s in (raw.lstrip(b"\0"), raw[:64].rstrip(b"\0") + raw[64:], raw[1:], b"\0" + raw, raw[:64] + b"\0" + raw[64:],
                          raw[:64] + raw[64:].lstrip(b"\0"), raw + b"\0"):
                    for ch in (raw[64:].hex(), raw[64:].lstrip(b"\0").hex(), None):
                        yield "verify", s.hex(), pk, ch
                yield "verify", raw.hex().lstrip("0"), pk, raw[64:].hex()
                yield "verify", raw.hex(), pk, raw[64:].hex().lstrip("0").rjust(2, "0")
        yield "keys", 6
        yield "challenges", 6
        for given in (None, {}, {"a": 1}, {"pubkey": "other"}, {"pubkey": ""}, {"pubkey": None}):
            for ch in ("ab" * 32, "", None, "00"):
                yield "client", [(0, given, ch), (1, None, ch), (2, given and dict(given), ch), (0, None, ch)]
                yield "client", [(0, given, ch), (1, "same", ch)]
        while True:
            k = g.r.random()
            n = g.r.randrange(5)
            ch = g.bytes().hex()
            if k < 0.5:
                sk = nacl.signing.SigningKey(seed_of(n))
                raw = bytes(sk.sign(bytes.fromhex(ch)))
                m = g.r.random()
                if m < 0.4:
                    i = g.r.randrange(len(raw))
                    raw = flip(raw, i, 1 << g.r.randrange(8))
                elif m < 0.5:
                    raw = raw[:g.r.randrange(len(raw))]
                s = raw.hex() if g.chance(0.8) else a_text(g)
                yield "verify", s, bytes(nacl.signing.SigningKey(seed_of(g.pick([n, n, n, n + 1]))).verify_key), g.pick([None, ch, ch, g.bytes().hex()])
            elif k < 0.7:
                yield "sign", n, ch
            elif k < 0.72:
                yield "keys", 2
            elif k < 0.75:
                yield "challenges", 3
            else:
                yield "client", [(g.r.randrange(4), None if g.chance(0.5) else "same" if g.chance(0.3) else dict(g.dict(1), **({"pubkey": g.str()} if g.chance(0.4) else {})),
                                  None if g.chance(0.1) else g.bytes().hex()) for _ in range(g.pick([1, 2, 3, 4]))]

    def run(self, case):
        what = case[0]
        if what == "verify":
            _, s, pk, ch = case
            raw = unhex(s)
            msg = valid(pk, raw) if raw is not None else None
            want = msg is not None and (ch is None or msg == bytes.fromhex(ch))
            for call in ([lambda: cryptosign.verify_cryptosign_signature(s, pk, ch)] +
                         ([lambda: cryptosign.verify_cryptosign_signature(s, pk)] if ch is None else [])):
                k, r = outcome(call)
                if k == "raise":
                    return f"verifying {s!r} raises {describe(r)}"
                if r is not want:
                    return f"verifying {s!r} under {pk.hex()} for challenge {ch!r} gives {r!r}"
            return None
        if what == "sign":
            _, n, ch = case
            return self.signed(n, ch, *outcome(cryptosign.sign_cryptosign_challenge, ch, nacl.signing.SigningKey(seed_of(n))))
        if what == "keys":
            seen = set()
            for _ in range(case[1]):
                k, r = outcome(cryptosign.generate_cryptosign_keypair)
                if k == "raise":
                    return f"generating keys raises {describe(r)}"
                pub, priv = r
                if unhex(pub) is None or unhex(priv) is None or len(priv) != 64 or \
                        bytes(nacl.signing.SigningKey(bytes.fromhex(priv)).verify_key) != bytes.fromhex(pub):
                    return f"keys {r!r} do not match"
                if priv in seen:
                    return "the same key pair again"
                seen.add(priv)
                a = auth.CryptoSignAuthenticator("x", priv)
                if a.auth_extra.get("pubkey") != pub:
                    return "the client announces another public key"
            return None
        if what == "challenges":
            seen = set()
            for _ in range(case[1]):
                k, r = outcome(cryptosign.generate_cryptosign_challenge)
                if k == "raise" or type(r) is not str or unhex(r) is None or len(r) != 64 or r in seen:
                    return f"challenge {r!r}"
                seen.add(r)
            return None
        if what == "client":
            made, last, dicts = [], None, []
            for n, given, ch in case[1]:
                if given == "same":                 # the very dictionary the client before was made with
                    given = last
                else:
                    given = copy.deepcopy(given)
                    dicts.append((given, copy.deepcopy(given)))
                last = given
                priv = seed_of(n).hex()
                pub = bytes(nacl.signing.SigningKey(seed_of(n)).verify_key).hex()
                want = copy.deepcopy(dicts[-1][1]) if given is not None else {}
                want.setdefault("pubkey", pub)
                k, a = outcome(lambda: auth.CryptoSignAuthenticator("john", priv) if given is None else
                               auth.CryptoSignAuthenticator("john", priv, given))
                if k == "raise":
                    return f"making an authenticator raises {describe(a)}"
                made.append((n, a, want, ch))
            for d, before in dicts:
                if not strict_eq(d, before):
                    return f"making a client with the extra {before!r} changes it to {d!r}"
            again = [(n, a, want, other) for other in ("cd" * 32, "0a" * 7) for n, a, want, _ in made]
            for i, (n, a, want, ch) in enumerate(made + again):
                if not strict_eq(a.auth_extra, want):
                    return f"announces {a.auth_extra!r} instead of {want!r}"
                extra = dict(NOTES) if i % 2 else {}
                if ch is not None:
                    extra["challenge"] = ch
                k, r = outcome(a.authenticate, messages.Challenge(messages.ChallengeFields("cryptosign", extra)))
                if ch is None:
                    if k != "raise" or not isinstance(r, ValueError):
                        return f"a challenge without challenge string: {r!r}"
                    continue
                if k == "ok" and type(r) is not messages.Authenticate:
                    return f"answers with {r!r}"
                w = self.signed(n, ch, k, r.signature if k == "ok" else r)
                if w:
                    return w
            return None
        raise AssertionError(what)

    def signed(self, n, ch, k, r):
        sk = nacl.signing.SigningKey(seed_of(n))
        if k == "raise":
            return f"signing {ch!r} raises {describe(r)}"
        want = nacl.bindings.crypto_sign(bytes.fromhex(ch), sk._signing_key)[:64].hex() + ch
        if r != want or type(r) is not str:
            return f"signing {ch!r} gives {r!r}"
        for c in (ch, None):
            if cryptosign.verify_cryptosign_signature(r, bytes(sk.verify_key), c) is not True:
                return f"the signature made of {ch!r} does not verify"
        return None
