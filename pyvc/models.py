"""Assumed contracts of library functions (the trusted base; every model used is reported).

Cryptography is uninterpreted with the inverse laws as facts; codecs return, for a text they
produced themselves, a structural copy of what was encoded, and otherwise any value or an error.
"""
import base64
import binascii
import contextlib
import copy
import dataclasses
import datetime
import functools
import hashlib
import hmac
import json
import math
import operator
import os
import random
import secrets
import struct
import typing
import warnings

import z3

from .terms import *
from .core import *
from .ops import concrete, plain, is_sym
from .coll import MISSING

BIGVAL = "bigval"       # BIGVAL(arr, off, n): value of n bytes as a big-endian number

MODELS = {}
USED = {}


def model(*fns, doc=None):
    def deco(h):
        for fn in fns:
            if fn is None:
                continue
            name = f"{getattr(fn, '__module__', '') or ''}.{getattr(fn, '__qualname__', fn)}"

            def wrapped(engine, args, kwargs, h=h, fn=fn, name=name):
                engine.contracts_used[name] = doc or (h.__doc__ or "").strip()
                return h(engine, fn, args, kwargs)
            MODELS[fn] = wrapped
        return h
    return deco


def F(name, *sorts):
    return z3.Function(name, *sorts)


hmac256 = F("hmac_sha256", I, I, I)
sha256 = F("sha256", I, I)
pbkdf2 = F("pbkdf2_hmac_sha256", I, I, I, I, I)
b64e = F("b64encode", I, I)
b64d = F("b64decode", I, I)
b64ok = F("b64ok", I, B)
b64strict = F("b64strict", I, B)
hexs = F("hexs", I, I)
unhexs = F("unhexs", I, I)
ishex = F("ishex", I, B)
ascii_only = F("ascii_only", I, B)
ascii_bytes = F("ascii_bytes", I, B)
pubkey = F("ed25519_public", I, I)
edsig = F("ed25519_sign", I, I, I)
edok = F("ed25519_valid", I, I, B)
edmsg = F("ed25519_message", I, I)


def as_bytes(e, v, what="a bytes-like object is required"):
    v = e.narrow(v, ["bytes"])
    if isinstance(v, BytesItems) and all(is_num(iv(x)) for x in v.items):
        v = bytes(iv(x).as_long() for x in v.items)
    if isinstance(v, (bytes, SBytes)):
        return v
    if isinstance(v, bytearray):
        return bytes(v)
    if isinstance(v, (BytesItems, BytesArr)):
        raise Unsupported("byte string of another representation")
    if isinstance(v, External) and "bytes" in v.attrs:
        return v.attrs["bytes"]
    if isinstance(v, SAny) and not e.branch(z3.Not(z3.Or(Val.is_obj(v.t), Val.is_opq(v.t)))):
        raise Unsupported("unknown object where bytes are needed")
    e.throw(TypeError, what)


def ylen_of(e, v):
    return e.length(v)


# ---- codecs ----------------------------------------------------------------------------------------

def merged(e, d):
    """An unmodified dictionary equal to an input dictionary with the changes made to it."""
    over = e.jover[d.r.get_id()]
    r, k = e.fresh("merged"), z3.Const("mk", Val)
    has, get, some = dhas(d.r, k), dget(d.r, k), {}
    for key, v in over:
        kt = e.to_any(key)
        if con_of(kt) != "str":
            raise Unsupported("key of a modified input dict")
        some[kt.get_id()] = v is not MISSING
        if v is MISSING:
            has = z3.And(has, k != kt)
        else:
            has, get = z3.Or(has, k == kt), z3.If(k == kt, e.to_any(struct_copy(e, v)), get)
    new = JDict(Val.dict(r))
    e.assume(z3.ForAll([k], dhas(r, k) == has, patterns=[dhas(r, k)]))
    e.assume(z3.ForAll([k], z3.Implies(has, dget(r, k) == get), patterns=[dget(r, k)]))
    e.assume(dcard(r) > 0 if any(some.values()) else dcard(r) >= 0)
    for key, _ in over:
        kt = e.to_any(key)
        for f, g in ((dhas(r, k), has), (dget(r, k), get)):
            e.assume(z3.substitute(z3.Implies(has, f == g), (k, kt)))
    return new


def struct_copy(e, v, seen=0):
    if seen > 40:
        raise Unsupported("deep structure")
    v = plain(e.resolve(v))
    if isinstance(v, HList):
        if any(isinstance(x, SymIter) for x in v.items):
            raise Unsupported("encoding a list of unknown length")
        return e.track(HList([struct_copy(e, x, seen + 1) for x in v.items]))
    if isinstance(v, (tuple, list)):
        return e.track(HList([struct_copy(e, x, seen + 1) for x in v]))
    if isinstance(v, HDict):
        return e.track(HDict([(k, struct_copy(e, x, seen + 1)) for k, x in v.entries]))
    if isinstance(v, dict):
        return e.track(HDict([(k, struct_copy(e, x, seen + 1)) for k, x in v.items()]))
    if isinstance(v, JDict) and e.jover.get(v.r.get_id()):
        return merged(e, v)
    if isinstance(v, (HInst, GInst, External, HSet, RootSet, EngineFunc, BoundMethod, RootMap, HeapMap)):
        e.throw(TypeError, "Object is not serializable")
    return v


def tokens(e):
    return e.ghost.setdefault("tokens", {})


def encode_value(e, codec, v, text):
    s = struct_copy(e, v)
    t = e.fresh(codec + "_text")
    e.ghost["tokens"] = {**tokens(e), t.decl().name(): (codec, s)}
    e.assume(t != lit("" if text else b""))
    if text:
        e.assume(ascii_only(t))
    return SStr(t) if text else SBytes(t)


def token_of(e, v):
    """(codec, structure) of a text an encoder produced on this path."""
    t = v.t if isinstance(v, (SStr, SBytes)) else None
    if t is None:
        return None
    while True:
        if z3.is_app(t) and t.num_args() == 1 and t.decl().name() in ("enc", "dec"):
            inner = t.arg(0)
            if z3.is_app(inner) and inner.num_args() == 0 and inner.decl().name() in tokens(e):
                return tokens(e)[inner.decl().name()]
            t = inner
            continue
        break
    if z3.is_app(t) and t.num_args() == 0:
        return tokens(e).get(t.decl().name())
    return None


def decode_value(e, codec, v, errors):
    tok = token_of(e, v)
    if tok is not None:
        if tok[0] == codec:
            return struct_copy(e, tok[1])
        # a text of another codec: anything may happen
    k = e.choose(2)
    if k == 1:
        x = e.exc(errors)
        x.attrs["__decoder__"] = True
        raise PyRaise(x)
    f = F("decoded_" + codec, I, Val)
    return SAny(f(v.t))


CODEC_KW = {"separators", "indent", "sort_keys", "ensure_ascii", "use_bin_type", "raw", "canonical", "strict_map_key",
            "allow_nan", "skipkeys", "check_circular"}


def check_kw(kwargs):
    for k, v in kwargs.items():
        ok = {"raw": v is False, "use_bin_type": v is True, "allow_nan": v is True, "skipkeys": v is False,
              "ensure_ascii": v is True, "separators": v in ((",", ":"), (", ", ": "), None)}.get(k, k in CODEC_KW and isinstance(v, (bool, int)))
        if not ok:
            raise Unsupported(f"codec option {k}")


@model(json.dumps)
def json_dumps(e, fn, args, kwargs):
    """text whose json.loads is a structural copy of the argument (argument representable in JSON)"""
    check_kw(kwargs)
    if concrete(args) and not kwargs:
        return e.native(json.dumps, args)
    return encode_value(e, "json", args[0], True)


@model(json.loads)
def json_loads(e, fn, args, kwargs):
    """structural copy for text made by json.dumps; any value or ValueError otherwise"""
    check_kw(kwargs)
    v = e.narrow(args[0], ["str", "bytes"])
    if isinstance(v, (BytesItems, BytesArr)):
        raise Unsupported("json.loads")
    if concrete(v):
        return e.native(json.loads, [v])
    if not isinstance(v, (SStr, SBytes)):
        if isinstance(v, SAny) and not e.branch(z3.Not(z3.Or(Val.is_obj(v.t), Val.is_opq(v.t)))):
            raise Unsupported("json.loads of an unknown object")
        e.throw(TypeError, "the JSON object must be str, bytes or bytearray")
    return decode_value(e, "json", v, json.JSONDecodeError if False else ValueError)


def _codec(modname, codec, error):
    try:
        m = __import__(modname)
    except ImportError:
        return

    def dumps(e, fn, args, kwargs):
        check_kw(kwargs)
        return encode_value(e, codec, args[0], False)

    def loads(e, fn, args, kwargs):
        check_kw(kwargs)
        v = e.narrow(args[0], ["bytes"])
        if isinstance(v, (bytes, BytesItems, BytesArr)):
            raise Unsupported(codec)
        if not isinstance(v, SBytes):
            if isinstance(v, SAny) and not e.branch(z3.Not(z3.Or(Val.is_obj(v.t), Val.is_opq(v.t)))):
                raise Unsupported(codec)
            e.throw(TypeError, "a bytes-like object is required")
        return decode_value(e, codec, v, error(m))
    for n in ("dumps", "packb"):
        if hasattr(m, n):
            model(getattr(m, n), doc=f"bytes whose {codec} decoding is a structural copy of the argument "
                                     f"(argument representable)")(dumps)
    for n in ("loads", "unpackb"):
        if hasattr(m, n):
            model(getattr(m, n), doc="structural copy for bytes made by the encoder; any value or a decoder error "
                                     "otherwise")(loads)


_codec("cbor2", "cbor", lambda m: getattr(m, "CBORDecodeError", ValueError))
_codec("msgpack", "msgpack", lambda m: getattr(m, "ExtraData", ValueError))


# ---- hashes ----------------------------------------------------------------------------------------

def digest_name(d):
    if isinstance(d, str):
        return d.lower().replace("-", "")
    n = getattr(d, "__name__", None)
    if n and n.startswith("openssl_"):
        n = n[8:]
    return n


def hmac_value(e, key, msg, d):
    n = digest_name(d)
    if n is None:
        raise Unsupported("digest")
    f = hmac256 if n == "sha256" else F("hmac_" + n, I, I, I)
    t = f(e.bytes_term(as_bytes(e, key)), e.bytes_term(as_bytes(e, msg)))
    e.fact(("hmac", t), ylen(t) == (32 if n == "sha256" else ylen(t)))
    return SBytes(t)


@model(hmac.new)
def hmac_new(e, fn, args, kwargs):
    """HMAC object; digest() is a function of key and message"""
    key = args[0] if args else kwargs["key"]
    msg = args[1] if len(args) > 1 else kwargs.get("msg")
    d = args[2] if len(args) > 2 else kwargs.get("digestmod")
    if d is None or d == "":
        e.throw(TypeError, "Missing required argument 'digestmod'.")
    state = {"msg": b"" if msg is None else msg}
    as_bytes(e, key)
    as_bytes(e, state["msg"])
    h = External("hmac")

    def update(en, a, k):
        state["msg"] = en.binop("Add", as_bytes(en, state["msg"]), as_bytes(en, a[0])) if state["msg"] != b"" else a[0]
    h.methods = {"digest": lambda en, a, k: hmac_value(en, key, state["msg"], d),
                 "hexdigest": lambda en, a, k: en.hex_of(hmac_value(en, key, state["msg"], d)), "update": update}
    return h


@model(hmac.digest)
def hmac_digest(e, fn, args, kwargs):
    """the HMAC of a message, a function of key and message"""
    a = list(args)
    return hmac_value(e, a[0], a[1], a[2] if len(a) > 2 else kwargs["digest"])


@model(hmac.compare_digest, secrets.compare_digest)
def compare_digest(e, fn, args, kwargs):
    """equality of two byte strings or two ASCII strings"""
    a, b = [e.narrow(x, ["bytes", "str"]) for x in args]
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
        for x in (a, b):
            if isinstance(x, str):
                ok = x.isascii()
            else:
                ok = e.branch(ascii_only(x.t))
            if not ok:
                e.throw(TypeError, "comparing strings with non-ASCII characters is not supported")
        return e.as_bool(e.eq(a, b))
    x, y = as_bytes(e, a), as_bytes(e, b)
    return e.as_bool(e.eq(x, y))


def _hash(e, fn, args, kwargs):
    """hash object; digest() is a function of the data"""
    n = digest_name(fn)
    state = {"d": as_bytes(e, args[0]) if args else b""}
    h = External("hash")
    f = sha256 if n == "sha256" else F("hash_" + n, I, I)

    def update(en, a, k):
        state["d"] = en.binop("Add", state["d"], as_bytes(en, a[0])) if state["d"] != b"" else as_bytes(en, a[0])
    h.methods = {"digest": lambda en, a, k: SBytes(f(en.bytes_term(state["d"]))),
                 "hexdigest": lambda en, a, k: en.hex_of(SBytes(f(en.bytes_term(state["d"])))), "update": update}
    return h


model(hashlib.sha256, hashlib.sha1, hashlib.sha512, hashlib.md5, hashlib.sha384)(_hash)


@model(hashlib.pbkdf2_hmac)
def pbkdf2_hmac(e, fn, args, kwargs):
    """a function of hash name, password, salt, iterations and key length; ValueError unless both are positive"""
    names = ["hash_name", "password", "salt", "iterations", "dklen"]
    a = dict(zip(names, args))
    a.update(kwargs)
    n = a["hash_name"]
    if not isinstance(n, str):
        raise Unsupported("hash name")
    pw, salt = as_bytes(e, a["password"]), as_bytes(e, a["salt"])
    it = e.num(a["iterations"])
    dk = a.get("dklen")
    if it is None:
        e.throw(TypeError, "an integer is required")
    if not e.branch(it >= 1):
        e.throw(ValueError, "iteration value must be greater than 0.")
    if not e.branch(it < 2 ** 31):
        e.throw(OverflowError, "iteration value is too great.")
    if dk is None:
        dl = z3.IntVal(32)
    else:
        dl = e.num(dk)
        if dl is None:
            e.throw(TypeError, "an integer is required")
        if not e.branch(dl >= 1):
            e.throw(ValueError, "key length must be greater than 0.")
        if not e.branch(dl < 2 ** 31):
            e.throw(OverflowError, "key length is too great.")
    f = pbkdf2 if digest_name(n) == "sha256" else F("pbkdf2_hmac_" + digest_name(n), I, I, I, I, I)
    t = f(e.bytes_term(pw), e.bytes_term(salt), it, dl)
    e.fact(("pbkdf2", t), ylen(t) == dl)
    return SBytes(t)


# ---- base64 and hex ----------------------------------------------------------------------------------

def b64encode_value(e, v):
    if isinstance(v, bytes):
        return base64.b64encode(v)
    t = b64e(v.t)
    e.fact(("b64", t), And(b64d(t) == v.t, b64ok(t), b64strict(t), ascii_bytes(t), decodable(t), enc(dec(t)) == t,
                           ascii_only(dec(t)), (t == lit(b"")) == (v.t == lit(b"")),
                           (dec(t) == lit("")) == (t == lit(b""))))
    return SBytes(t)


@model(base64.b64encode, base64.standard_b64encode)
def b64encode(e, fn, args, kwargs):
    """base64 text, inverted by b64decode"""
    if len(args) > 1 or kwargs:
        raise Unsupported("b64encode options")
    return b64encode_value(e, as_bytes(e, args[0]))


def text_bytes(e, v):
    """ASCII str or bytes as bytes; ValueError for other strings."""
    v = e.narrow(v, ["str", "bytes"])
    if isinstance(v, str):
        if not v.isascii():
            e.throw(ValueError, "string argument should contain only ASCII characters")
        return v.encode()
    if isinstance(v, SStr):
        if not e.branch(ascii_only(v.t)):
            e.throw(ValueError, "string argument should contain only ASCII characters")
        return e.encode(v)
    return as_bytes(e, v)


@model(base64.b64decode, base64.standard_b64decode)
def b64decode(e, fn, args, kwargs):
    """inverse of b64encode; ValueError for text that is not base64"""
    v = text_bytes(e, args[0])
    strict = kwargs.get("validate", False)
    if len(args) > 1 or set(kwargs) - {"validate"}:
        raise Unsupported("b64decode options")
    if isinstance(v, bytes):
        return e.native(base64.b64decode, [v], kwargs)
    e.fact(("b64s", v.t), z3.Implies(b64strict(v.t), b64ok(v.t)))
    if not e.branch(b64strict(v.t) if strict else b64ok(v.t)):
        e.throw(binascii.Error, "Incorrect padding")
    return SBytes(b64d(v.t))


@model(binascii.b2a_base64)
def b2a_base64(e, fn, args, kwargs):
    """base64 text, inverted by b64decode"""
    v = b64encode_value(e, as_bytes(e, args[0]))
    if kwargs.get("newline", True):
        return e.binop("Add", v, b"\n")
    return v


@model(binascii.a2b_base64)
def a2b_base64(e, fn, args, kwargs):
    """inverse of b2a_base64; ValueError for text that is not base64"""
    return b64decode(e, fn, args, {})


@model(binascii.hexlify, binascii.b2a_hex)
def hexlify(e, fn, args, kwargs):
    """hex digits, inverted by unhexlify"""
    if len(args) > 1 or kwargs:
        raise Unsupported("hexlify options")
    v = as_bytes(e, args[0])
    if isinstance(v, bytes):
        return v.hex().encode()
    return hex_bytes(e, v)


def hex_bytes(e, v):
    s = e.hex_of(v)
    r = e.encode(s)
    for p in parts_of(s):
        if isinstance(p, SStr):
            e.fact(("hexascii", p.t), And(ascii_only(p.t), ascii_bytes(enc(p.t)), enc(dec(enc(p.t))) == enc(p.t)))
    e.fact(("hexascii", s.t), And(ascii_only(s.t), ascii_bytes(enc(s.t))))
    if isinstance(r, SBytes):
        r.parts = None
    return r


@model(binascii.unhexlify, binascii.a2b_hex)
def unhexlify(e, fn, args, kwargs):
    """inverse of hexlify; ValueError for text that is not hex"""
    v = e.narrow(args[0], ["str", "bytes"])
    if concrete(v):
        return e.native(fn, [v])
    return unhex(e, v)


def unhexed(t):
    """unhexs(t), simplified."""
    return t.arg(0) if z3.is_app(t) and t.decl().eq(hexs) else unhexs(t)


def unhex(e, v):
    if isinstance(v, SStr):
        s = v
    elif isinstance(v, SBytes):
        # bytes of text
        if z3.is_app(v.t) and v.t.decl().name() == "enc":
            s = SStr(v.t.arg(0))
        else:
            if not e.branch(z3.And(ascii_bytes(v.t), decodable(v.t))):
                e.throw(binascii.Error, "Non-hexadecimal digit found")
            s = e.bytes_method(v, "decode", [], {})
    else:
        if isinstance(v, SAny) and not e.branch(z3.Not(z3.Or(Val.is_obj(v.t), Val.is_opq(v.t)))):
            raise Unsupported("unhexlify of an unknown object")
        e.throw(TypeError, "argument should be bytes, buffer or ASCII string")
    if s.parts and all(isinstance(p, str) and all(c in "0123456789abcdefABCDEF" for c in p) and len(p) % 2 == 0 or
                       isinstance(p, SStr) and e.entails(ishex(p.t)) for p in s.parts):
        ps = [bytes.fromhex(p) if isinstance(p, str) else SBytes(unhexed(p.t)) for p in s.parts]
        r = ps[0]
        for p in ps[1:]:
            r = e.binop("Add", r, p)
        e.fact(("hexcat", s.t), And(ishex(s.t), unhexs(s.t) == e.bytes_term(r)))
        return r
    if not e.branch(ascii_only(s.t)):
        e.throw(ValueError, "string argument should contain only ASCII characters")
    if not e.branch(ishex(s.t)):
        e.throw(binascii.Error, "Non-hexadecimal digit found")
    e.fact(("unhexlen", s.t), z3.And((unhexs(s.t) == lit(b"")) == (s.t == lit("")), e.slen_of(s.t) == 2 * ylen(unhexs(s.t)),
                                     ylen(unhexs(s.t)) >= 0))
    return SBytes(unhexed(s.t))


@model(bytes.fromhex)
def bytes_fromhex(e, fn, args, kwargs):
    """inverse of hexlify (whitespace between digits is allowed); ValueError otherwise"""
    v = e.narrow(args[0], ["str"])
    if concrete(v):
        return e.native(bytes.fromhex, [v])
    if not isinstance(v, SStr):
        e.throw(TypeError, "fromhex() argument must be str")
    if e.branch(ishex(v.t)):
        return unhex(e, v)
    if e.branch(F("apx_fromhex_ok", I, B)(v.t)):
        return SBytes(F("apx_fromhex", I, I)(v.t))
    e.throw(ValueError, "non-hexadecimal number found in fromhex() arg")


# ---- Ed25519 ----------------------------------------------------------------------------------------

try:
    import nacl.encoding
    import nacl.exceptions
    import nacl.signing
    HAVE_NACL = True
except ImportError:
    HAVE_NACL = False


if HAVE_NACL:
    class Raw:
        pass

    def encoder(e, c, v):
        if c is None or c is nacl.encoding.RawEncoder:
            return v
        if c is nacl.encoding.HexEncoder:
            return hexlify(e, None, [v], {})
        if c is nacl.encoding.Base64Encoder:
            return b64encode_value(e, as_bytes(e, v))
        raise Unsupported("encoder")

    def decoder(e, c, v):
        if c is None or c is nacl.encoding.RawEncoder:
            return v
        if c is nacl.encoding.HexEncoder:
            return unhexlify(e, binascii.unhexlify, [v], {})
        if c is nacl.encoding.Base64Encoder:
            return b64decode(e, None, [v], {})
        raise Unsupported("encoder")

    def key_bytes(e, v, what):
        v = e.narrow(v, ["bytes"])
        if isinstance(v, (BytesItems, BytesArr)):
            raise Unsupported("key bytes")
        if not isinstance(v, (bytes, SBytes)):
            e.throw(nacl.exceptions.TypeError, f"{what} must be created from 32 bytes")
        n = e.length(v)
        ok = n == 32 if isinstance(n, int) else e.branch(n.t == 32)
        return v, ok

    def signing_key(e, seed):
        o = External("SigningKey", cls=nacl.signing.SigningKey)
        st = e.bytes_term(seed)
        pk = SBytes(pubkey(st))
        e.fact(("pk", pk.t), ylen(pk.t) == 32)
        o.attrs = {"verify_key": verify_key(e, pk), "bytes": seed, "_seed": seed}

        def sign(en, args, kwargs):
            m = as_bytes(en, args[0])
            c = args[1] if len(args) > 1 else kwargs.get("encoder")
            sg = SBytes(edsig(st, en.bytes_term(m)))
            en.fact(("edsig", sg.t), ylen(sg.t) == 64)
            whole = en.binop("Add", sg, m)
            wt = en.bytes_term(whole)
            en.fact(("edcat", wt), And(edok(pk.t, wt), edmsg(wt) == en.bytes_term(m)))
            # a signature valid under another key: excluded (ideal signatures)
            s = External("SignedMessage", cls=nacl.signing.SignedMessage)
            enc_whole = encoder(en, c, whole)
            s.attrs = {"signature": encoder(en, c, sg), "message": encoder(en, c, m), "bytes": enc_whole}
            s.methods = {"decode": lambda e2, a, k: e2.call_method(enc_whole, "decode", a, k),
                         "hex": lambda e2, a, k: e2.call_method(enc_whole, "hex", a, k)}
            return s
        o.methods = {"sign": sign, "encode": lambda en, a, k: encoder(en, a[0] if a else k.get("encoder"), seed),
                     "__bytes__": lambda en, a, k: seed}
        return o

    def verify_key(e, pk):
        o = External("VerifyKey", cls=nacl.signing.VerifyKey)
        o.attrs = {"bytes": pk}
        pt = e.bytes_term(pk)

        def verify(en, args, kwargs):
            sm = args[0]
            sig = args[1] if len(args) > 1 else kwargs.get("signature")
            c = args[2] if len(args) > 2 else kwargs.get("encoder")
            if sig is not None:
                m = as_bytes(en, decoder(en, c, sm) if c is not None else sm)
                sg = as_bytes(en, sig)
                n = en.length(sg)
                if not (n == 64 if isinstance(n, int) else en.branch(n.t == 64)):
                    en.throw(nacl.exceptions.ValueError, "The signature must be exactly 64 bytes long")
                whole = en.binop("Add", sg, m)
            else:
                whole = as_bytes(en, decoder(en, c, sm))
                m = None
            wt = en.bytes_term(whole)
            n = en.length(whole)
            short = n < 64 if isinstance(n, int) else en.branch(n.t < 64)
            if short:
                # the real library reports such input with either exception
                en.throw(nacl.exceptions.ValueError if en.choose(2) else nacl.exceptions.BadSignatureError, "too short")
            if not en.branch(edok(pt, wt)):
                en.throw(nacl.exceptions.BadSignatureError, "Signature was forged or corrupt")
            return m if m is not None else SBytes(edmsg(wt))
        o.methods = {"verify": verify, "encode": lambda en, a, k: encoder(en, a[0] if a else k.get("encoder"), pk),
                     "__bytes__": lambda en, a, k: pk}
        return o

    @model(nacl.signing.SigningKey)
    def m_signing_key(e, fn, args, kwargs):
        """signing key of a 32-byte seed; sign(m) is valid under its verify_key; ValueError for other seeds"""
        c = args[1] if len(args) > 1 else kwargs.get("encoder")
        seed = decoder(e, c, args[0] if args else kwargs["seed"])
        v, ok = key_bytes(e, seed, "SigningKey")
        if not ok:
            e.throw(nacl.exceptions.ValueError, "The seed must be exactly 32 bytes long")
        return signing_key(e, v)

    @model(nacl.signing.SigningKey.generate)
    def m_generate(e, fn, args, kwargs):
        """signing key of a random seed"""
        s = draw_bytes(e, z3.IntVal(32))
        return signing_key(e, s)

    @model(nacl.signing.VerifyKey)
    def m_verify_key(e, fn, args, kwargs):
        """verify key of 32 bytes; verify(s) returns the message when valid, raises BadSignatureError or ValueError
        otherwise; ValueError for keys of other lengths"""
        c = args[1] if len(args) > 1 else kwargs.get("encoder")
        k = decoder(e, c, args[0] if args else kwargs["key"])
        v, ok = key_bytes(e, k, "VerifyKey")
        if not ok:
            e.throw(nacl.exceptions.ValueError, "The key must be exactly 32 bytes long")
        return verify_key(e, v)

    for _c in (nacl.encoding.HexEncoder, nacl.encoding.RawEncoder, nacl.encoding.Base64Encoder):
        MODELS[_c.encode] = lambda e, args, kwargs, c=_c: encoder(e, c, args[0])
        MODELS[_c.decode] = lambda e, args, kwargs, c=_c: decoder(e, c, args[0])


# ---- randomness and time ------------------------------------------------------------------------------

def draws(e):
    return e.ghost.setdefault("draws", ())


def draw_bytes(e, n):
    t = e.fresh("random_bytes")
    e.assume(ylen(t) == n)
    if is_num(n) and n.as_long() > 0:
        e.assume(t != lit(b""))
    e.ghost["draws"] = draws(e) + (("bytes", t, n),)
    return SBytes(t)


@model(random.randbytes, secrets.token_bytes, os.urandom)
def randbytes(e, fn, args, kwargs):
    """a fresh byte string of the given length"""
    if not args:
        return draw_bytes(e, z3.IntVal(32))
    n = e.num(args[0])
    if n is None:
        e.throw(TypeError, "an integer is required")
    if not e.branch(n >= 0):
        e.throw(ValueError, "number of bytes must be non-negative")
    return draw_bytes(e, n)


@model(secrets.token_hex)
def token_hex(e, fn, args, kwargs):
    """the hex digits of a fresh byte string of the given length"""
    v = randbytes(e, fn, args, kwargs)
    return e.bytes_method(hex_bytes(e, v), "decode", [], {})


def draw_int(e, lo, hi):
    t = e.fresh("random_int")
    e.assume(z3.And(t >= lo, t <= hi))
    e.ghost["draws"] = draws(e) + (("int", t, lo, hi),)
    return SInt(t)


@model(random.randint)
def randint(e, fn, args, kwargs):
    """a fresh integer between the bounds, inclusive; ValueError for an empty range"""
    a = e.num(args[0] if args else kwargs["a"])
    b = e.num(args[1] if len(args) > 1 else kwargs["b"])
    if a is None or b is None:
        e.throw(TypeError, "an integer is required")
    if not e.branch(a <= b):
        e.throw(ValueError, "empty range for randrange()")
    return draw_int(e, a, b)


@model(random.randrange)
def randrange(e, fn, args, kwargs):
    """a fresh integer of the range; ValueError for an empty range"""
    if len(args) > 2 or kwargs:
        raise Unsupported("randrange")
    a, b = (z3.IntVal(0), e.num(args[0])) if len(args) == 1 else (e.num(args[0]), e.num(args[1]))
    if not e.branch(a < b):
        e.throw(ValueError, "empty range for randrange()")
    return draw_int(e, a, b - 1)


@model(secrets.randbelow)
def randbelow(e, fn, args, kwargs):
    """a fresh integer from 0 below the bound; ValueError for a bound that is not positive"""
    b = e.num(args[0])
    if not e.branch(b > 0):
        e.throw(ValueError, "Upper bound must be positive.")
    return draw_int(e, z3.IntVal(0), b - 1)


@model(random.getrandbits, secrets.randbits)
def getrandbits(e, fn, args, kwargs):
    """a fresh integer of the given number of bits"""
    if not isinstance(args[0], int) or args[0] < 0:
        raise Unsupported("getrandbits")
    return draw_int(e, z3.IntVal(0), z3.IntVal(2 ** args[0] - 1))


def timestamp(e, args=None, kwargs=None):
    t = External("datetime", cls=datetime.datetime)
    t.methods = {"strftime": lambda en, a, k: SStr(en.fresh("time")),
                 "isoformat": lambda en, a, k: SStr(en.fresh("time")),
                 "replace": lambda en, a, k: timestamp(en), "astimezone": lambda en, a, k: timestamp(en),
                 "timestamp": lambda en, a, k: SAny(Val.float(en.fresh("time")))}
    return t


@model(datetime.datetime.utcnow, datetime.datetime.now)
def utcnow(e, fn, args, kwargs):
    """some point in time"""
    return timestamp(e)


# ---- the rest ------------------------------------------------------------------------------------------

@model(math.log2)
def log2(e, fn, args, kwargs):
    """floor exact for 1 <= x < 2^48, at least 48 above; ValueError for x <= 0"""
    v = args[0]
    if concrete(v):
        return e.native(math.log2, [v])
    x = e.num(v)
    if x is None:
        e.throw(TypeError, "must be real number")
    if not e.branch(x > 0):
        e.throw(ValueError, "math domain error")
    r = e.fresh("log2")
    facts = [r >= 0, z3.Implies(x >= 2 ** 48, r >= 48)]
    for k in range(48):
        facts.append(z3.And(x >= 2 ** k, x < 2 ** (k + 1)) == (r == k))
    e.assume(z3.And(*facts))
    return SFloor(r)


@model(math.floor, math.trunc)
def floor(e, fn, args, kwargs):
    """int() of a float that is not negative"""
    if concrete(args):
        return e.native(fn, args)
    v = e.resolve(args[0])
    if isinstance(v, SFloor):
        return e.ival(v.t)
    return e.bi_int([v], {})


@model(contextlib.suppress)
def suppress(e, fn, args, kwargs):
    """context manager"""
    return External("suppress", attrs={"excs": tuple(args)})


@model(functools.partial)
def partial(e, fn, args, kwargs):
    """partial application"""
    return Partial(args[0], list(args[1:]), dict(kwargs))


@model(functools.reduce)
def reduce_(e, fn, args, kwargs):
    """left fold"""
    it = e.iterable(args[1])
    if not isinstance(it, list) or any(isinstance(x, SymIter) for x in it):
        raise Unsupported("reduce over a collection of unknown size")
    it = list(it)
    if len(args) > 2:
        r = args[2]
    elif it:
        r = it.pop(0)
    else:
        e.throw(TypeError, "reduce() of empty iterable with no initial value")
    for x in it:
        r = e.call(args[0], [r, x], {})
    return r


@model(int.from_bytes)
def int_from_bytes(e, fn, args, kwargs):
    """big- or little-endian value of a byte string"""
    v = e.narrow(args[0], ["bytes"])
    order = args[1] if len(args) > 1 else kwargs.get("byteorder", "big")
    if kwargs.get("signed", False) is not False or order not in ("big", "little"):
        raise Unsupported("int.from_bytes options")
    if isinstance(v, bytes):
        return int.from_bytes(v, order)
    if isinstance(v, BytesItems):
        items = v.items if order == "big" else v.items[::-1]
        t = z3.IntVal(0)
        for x in items:
            t = t * 256 + iv(x)
        return e.ival(z3.simplify(t))
    if isinstance(v, BytesArr) and order == "big":
        return SInt(F(BIGVAL, v.arr.sort(), I, I, I)(v.arr, v.off, v.len))
    if isinstance(v, (HList, tuple)):
        return int_from_bytes(e, fn, [e.bi_bytes([v], {})] + list(args[1:]), kwargs)
    if isinstance(v, (SBytes, BytesArr, SAny)):
        raise Unsupported("int.from_bytes of unknown bytes")
    e.throw(TypeError, "cannot convert object to bytes")


@model(dict.fromkeys)
def fromkeys(e, fn, args, kwargs):
    """dict with the given keys"""
    it = e.iterable(args[0])
    if not isinstance(it, list):
        raise Unsupported("dict.fromkeys")
    d = e.track(HDict())
    for k in it:
        e.dict_set(d, k, args[1] if len(args) > 1 else None)
    return d


@model(typing.cast)
def cast(e, fn, args, kwargs):
    """identity"""
    return args[1]


@model(warnings.warn)
def warn(e, fn, args, kwargs):
    """no effect"""
    return None


@model(copy.copy)
def copy_copy(e, fn, args, kwargs):
    """shallow copy"""
    v = e.resolve(args[0])
    if isinstance(v, HInst):
        return e.track(HInst(v.cls, dict(v.attrs)))
    if isinstance(v, HList):
        return e.track(HList(list(v.items)))
    if isinstance(v, (HDict, RootMap, HeapMap)):
        return e.dict_copy(v)
    if concrete(v) and isinstance(v, (int, str, bytes, tuple, type(None), float)):
        return v
    if isinstance(v, (SInt, SStr, SBytes, SBool, JList, JDict)):
        return v
    raise Unsupported("copy")


@model(copy.deepcopy)
def deepcopy(e, fn, args, kwargs):
    """deep copy"""
    v = e.resolve(args[0])
    if isinstance(v, (HList, HDict, int, str, bytes, SInt, SStr, SBool, SBytes, JList, JDict, type(None), SAny)):
        return struct_copy(e, v)
    raise Unsupported("deepcopy")


@model(dataclasses.replace)
def dc_replace(e, fn, args, kwargs):
    """a new instance with some fields replaced"""
    o = e.resolve(args[0])
    names = [f.name for f in dataclasses.fields(e.pytype(o)) if f.init]
    kw = {n: e.getattr(o, n) for n in names}
    kw.update(kwargs)
    return e.call(e.pytype(o), [], kw)


@model(struct.pack)
def struct_pack(e, fn, args, kwargs):
    """integers as bytes; struct.error when out of range"""
    if concrete(args):
        return e.native(struct.pack, args)
    fmt = args[0]
    sizes = struct_sizes(fmt)
    if len(sizes) != len(args) - 1:
        e.throw(struct.error, "pack expected another number of items")
    out = []
    for s, v in zip(sizes, args[1:]):
        if s == "x":
            raise Unsupported("struct format")
        n = e.num(v)
        if n is None:
            e.throw(struct.error, "required argument is not an integer")
        if not e.branch(z3.And(n >= 0, n < 256 ** s)):
            e.throw(struct.error, "argument out of range")
        items = [z3.simplify((n / (256 ** k)) % 256 if k else n % 256) for k in range(s)]
        out += items if fmt[0] == "<" else items[::-1]
    return BytesItems(out)


def struct_sizes(fmt):
    if not isinstance(fmt, str) or fmt[:1] not in (">", "!", "<"):
        raise Unsupported("struct format")
    sizes, n = [], ""
    for c in fmt[1:]:
        if c.isdigit():
            n += c
            continue
        if c not in "BHILQ":
            raise Unsupported("struct format")
        sizes += [{"B": 1, "H": 2, "I": 4, "L": 4, "Q": 8}[c]] * (int(n) if n else 1)
        n = ""
    return sizes


@model(struct.unpack)
def struct_unpack(e, fn, args, kwargs):
    """bytes as integers; struct.error for another length"""
    if concrete(args):
        return e.native(struct.unpack, args)
    sizes = struct_sizes(args[0])
    v = e.resolve(args[1])
    if isinstance(v, BytesArr):
        if not e.branch(v.len == sum(sizes)):
            e.throw(struct.error, "unpack requires a buffer of another size")
        v = BytesItems([z3.Select(v.arr, z3.simplify(v.off + k)) for k in range(sum(sizes))])
    if not isinstance(v, BytesItems):
        raise Unsupported("struct.unpack")
    if len(v.items) != sum(sizes):
        e.throw(struct.error, "unpack requires a buffer of another size")
    out, p = [], 0
    for s in sizes:
        items = v.items[p:p + s]
        p += s
        t = z3.IntVal(0)
        for x in items if args[0][0] != "<" else items[::-1]:
            t = t * 256 + iv(x)
        out.append(e.ival(z3.simplify(t)))
    return tuple(out)


def _op(name):
    return lambda e, args, kwargs: e.binop(name, *args)


def _cmp(name):
    return lambda e, args, kwargs: e.as_bool(e.compare(name, *args))


for _n, _f in (("Add", operator.add), ("Sub", operator.sub), ("Mult", operator.mul), ("BitOr", operator.or_),
               ("BitAnd", operator.and_), ("LShift", operator.lshift), ("RShift", operator.rshift)):
    MODELS[_f] = _op(_n)
for _n, _f in (("Eq", operator.eq), ("NotEq", operator.ne), ("Lt", operator.lt), ("LtE", operator.le),
               ("Gt", operator.gt), ("GtE", operator.ge), ("Is", operator.is_), ("IsNot", operator.is_not)):
    MODELS[_f] = _cmp(_n)
MODELS[operator.not_] = lambda e, args, kwargs: e.as_bool(Not(e.truth(args[0])))
MODELS[operator.contains] = lambda e, args, kwargs: e.as_bool(e.contains(args[0], args[1]))


@model(operator.attrgetter)
def attrgetter(e, fn, args, kwargs):
    """attribute access"""
    names = args

    def get(en, a, k):
        rs = []
        for n in names:
            v = a[0]
            for p in n.split("."):
                v = en.getattr(v, p)
            rs.append(v)
        return rs[0] if len(rs) == 1 else tuple(rs)
    return External("attrgetter", {"__call__": get})


@model(operator.itemgetter)
def itemgetter(e, fn, args, kwargs):
    """subscript"""
    keys = args

    def get(en, a, k):
        rs = [en.index(a[0], x) for x in keys]
        return rs[0] if len(rs) == 1 else tuple(rs)
    return External("itemgetter", {"__call__": get})


import itertools


@model(itertools.chain)
def chain(e, fn, args, kwargs):
    """concatenation"""
    out = []
    for a in args:
        out += e.extend_items(a)
    return e.track(HList(out))
