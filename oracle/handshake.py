"""A01-A03, J01, H01 on CPython: histories of acceptors and joiners against a reference model."""
import base64
import copy
import hashlib
import hmac
import itertools
import json

import nacl.bindings
import nacl.signing

from wampproto import auth, messages, types
from wampproto.acceptor import Acceptor
from wampproto.auth.auth import WAMPCRASaltedResponse
from wampproto.exception import ApplicationError
from wampproto.joiner import Joiner
from wampproto.serializers import CBORSerializer, JSONSerializer, MsgPackSerializer
from spec import wamp
from .base import describe, outcome, strict_eq
from .crypto import b64, decoded, tag
from .messages import gen_fields, make, read, reported

SER = {"json": JSONSerializer, "cbor": CBORSerializer, "msgpack": MsgPackSerializer}
ROUTER = {"dealer": {"features": {}}, "broker": {"features": {}}}
CLIENT = {r: {"features": {}} for r in ("caller", "callee", "publisher", "subscriber")}
METHODS = ["anonymous", "ticket", "wampcra", "cryptosign"]
EXC = {"ValueError": ValueError, "KeyError": KeyError, "RuntimeError": RuntimeError, "PermissionError": PermissionError, "Exception": Exception,
       "TypeError": TypeError, "AttributeError": AttributeError}
FAILED = "wamp.error.authentication_failed"


def key(seed):
    return nacl.signing.SigningKey(bytes([seed % 256, seed // 256 % 256]) * 16)


def pub(seed):
    return key(seed).verify_key.encode().hex()


def unhex(s):
    try:
        return bytes.fromhex(s) if s == "".join(s.split()) and s.isascii() else None
    except ValueError:
        return None


def ed_message(sig, pk):
    """What a signature text signs under a public key; None when it is not valid."""
    raw, p = unhex(sig), unhex(pk)
    if raw is None or p is None or len(p) != 32 or len(raw) < 64:
        return None
    try:
        return nacl.bindings.crypto_sign_open(raw, p)
    except Exception:
        return None


class Server:
    """The authenticator: answers as the case says, and notes what it is asked."""
    def __init__(self, verdicts):
        self.verdicts, self.asked = list(verdicts), []

    def methods(self):
        return METHODS

    def authenticate(self, request):
        d = {n: copy.deepcopy(getattr(request, n)) for n in ("method", "realm", "authid", "auth_extra")}
        for n in ("ticket", "public_key"):
            if hasattr(request, n):
                d[n] = getattr(request, n)
        v = self.verdicts.pop(0) if self.verdicts else ("raise", "ValueError", ["no"])
        self.asked.append((d, type(request).__name__, v))
        if v[0] == "raise":
            raise EXC[v[1]](*v[2])
        if v[0] == "ok":
            return auth.Response(v[1], v[2])
        if v[0] == "cra":
            return auth.WAMPCRAResponse(v[1], v[2], v[3])
        return WAMPCRASaltedResponse(*v[1:])


class Acc:
    """The reference acceptor."""
    def __init__(self):
        self.phase, self.method, self.hello, self.challenge, self.granted, self.details, self.named = "none", None, None, None, None, None, None


def signature(a, how, others):
    """The AUTHENTICATE signature a step describes, made from what was seen so far."""
    kind, arg = how
    if kind == "text":
        return arg
    src = a
    if kind == "of":                          # signs another acceptor's challenge
        src = others[arg % len(others)]
        kind, arg = "good", None
    ch = src.challenge if src.challenge is not None else "00" * 32
    if a.method == "cryptosign":
        sk = key(a.seed)
        raw = unhex(ch) or b""
        s = sk.sign(raw)
        sig, msg = bytes(s.signature), raw
        if kind == "wrongkey":
            sig = bytes(key(a.seed + 1 + arg).sign(raw).signature)
        elif kind == "flip":
            i = arg % 64
            sig = sig[:i] + bytes([sig[i] ^ 1]) + sig[i + 1:]
        elif kind == "flipmsg":
            i = arg % max(len(raw), 1)
            msg = raw[:i] + bytes([raw[i] ^ 1]) + raw[i + 1:] if raw else raw
        elif kind == "other":                 # a valid signature of something else
            msg = bytes([arg % 256]) * (arg % 40)
            sig = bytes(sk.sign(msg).signature)
        elif kind == "prefix":
            msg = raw[:len(raw) - 1 - arg % 8]
            sig = bytes(sk.sign(msg).signature)
        elif kind == "suffix":
            msg = raw + b"x" * (1 + arg % 3)
            sig = bytes(sk.sign(msg).signature)
        elif kind == "trunc":
            return (sig + msg).hex()[:arg % 192]
        elif kind == "sigonly":
            return sig.hex()
        out = (sig + msg).hex()
    else:
        secret = a.granted[3] if a.granted and len(a.granted) > 3 else "?"
        t = tag(ch, secret.encode())
        if kind == "wrongkey":
            t = tag(ch, (secret + "x" * (1 + arg % 3)).encode())
        elif kind == "flip":
            t = t[:arg % 32] + bytes([t[arg % 32] ^ 1]) + t[arg % 32 + 1:]
        elif kind == "other":
            t = tag("x" * (arg % 20), secret.encode())
        elif kind == "prefix":
            t = tag(ch[:-1], secret.encode())
        elif kind == "suffix":
            t = tag(ch + " ", secret.encode())
        elif kind == "flipmsg":
            t = hmac.new(secret.encode(), ch.encode(), "sha1").digest()
        elif kind == "trunc":
            return b64(t[:arg % 32])
        elif kind == "sigonly":
            return t.hex()
        out = b64(t)
    if kind == "case":
        out = out.upper()
    elif kind == "tail":
        out += ["\n", " ", "=", "ä", "00", "A"][arg % 6]
    elif kind == "nonascii":
        out = out[:arg % 40] + "ä" + out[arg % 40 + 1:]
    return out


def valid(a, sig):
    if a.method == "cryptosign":
        m = ed_message(sig, a.pubkey)
        return m is not None and m == unhex(a.challenge)
    return decoded(sig) == tag(a.challenge, a.granted[3].encode())


HOWS = ["good"] * 6 + ["wrongkey", "flip", "flipmsg", "other", "prefix", "suffix", "trunc", "sigonly", "case", "tail", "nonascii", "of", "of", "text"]


class Acceptors:
    history = True

    def verdict(self, g, method):
        r = g.r.random()
        if r < 0.22:
            return "raise", g.pick(list(EXC)), g.pick([[], ["denied"], ["a", "b"], [1], [None], [""], [["a"], {"k": 1}], [g.str(), 0, False, None], g.list(1, False, False)])
        a, b = g.str(), g.str()
        if method == "wampcra":
            if r < 0.3:
                return "salted", a, b, g.str(), g.pick(["", "salt", g.str()]), g.pick([1, 2, 10, 1000, 2 ** 31 - 1]), g.pick([1, 16, 32, 64, 1000])
            return ("cra", a, b, g.str()) if r < 0.9 else ("ok", a, b)
        return ("cra", a, b, g.str()) if r < 0.3 else ("ok", a, b)

    def hello(self, g, method, seed):
        f = gen_fields(g, wamp.BY_NAME["Hello"])
        if g.chance(0.5):
            f["roles"] = CLIENT
        f["authextra"] = g.pick([None, {}, {"x": 1}, {"pubkey": pub(seed), "y": [1]}, {"challenge": "00", "salt": "", "authid": g.str(), "authrole": "admin"},
                                 {g.str(): g.value(1, False, False) for _ in range(3)}])
        if method == "anonymous" and g.chance(0.5):
            f["authmethods"] = g.pick([None, []])
        elif method == "unknown":
            f["authmethods"] = [g.pick(["", "Ticket", "tickets", "scram", 1, None, ["ticket"], "cookie", "ANONYMOUS", "wampcra "])]
        else:
            f["authmethods"] = [method] + g.pick([[], ["anonymous"], ["ticket", "wampcra"], ["cryptosign"], [1]])
        if method == "cryptosign" and g.chance(0.85):
            f["authextra"] = {"pubkey": g.pick([pub(seed)] * 6 + ["", "00", pub(seed).upper(), "00" * 32, pub(seed) + "00", pub(seed)[2:]]), "z": None}
        if method == "cryptosign" and g.chance(0.05):
            f["authextra"] = {"pubkey": None}
        return f

    def cases(self, g):
        def one(n, ser, verdicts, steps, roles=None, authd=True):
            return n, ser, authd, roles, verdicts, steps
        # systematic: every method, honest and not
        for ser in SER:
            for method in METHODS:
                for how in sorted(set(HOWS)):
                    if method in ("anonymous", "ticket") and how not in ("good", "text"):
                        continue
                    for arg in (0, 7, 33):
                        vs = [("cra", "bob", "guest", "s3cret")] * 3
                        f = self.hello(g, method, 3)
                        f["authmethods"] = [method]
                        if method == "cryptosign":
                            f["authextra"] = {"pubkey": pub(3)}
                        a = "tick" if how == "text" else arg
                        yield one(2, ser, vs, [(1, "hello", True, f, 3), (0, "hello", True, f, 3), (0, "auth", True, (how, a), {}), (0, "auth", True, ("good", 0), {}),
                                               (1, "auth", False, ("good", 0), {"x": 1}), (1, "hello", False, f, 3), (0, "hello", False, f, 3)])
        for m in wamp.MESSAGES:
            f = gen_fields(g, m)
            yield one(1, "json", [("cra", "a", "b", "c")] * 4, [(0, "msg", True, m.name, f)])
            h = self.hello(g, "ticket", 1)
            h["authmethods"] = ["ticket"]
            for authd in (True, False):
                yield one(1, "cbor", [("cra", "a", "b", "c")] * 4, [(0, "hello", True, h, 1), (0, "msg", True, m.name, f), (0, "auth", True, ("text", "t"), {}),
                                                                    (0, "msg", True, m.name, f)], None, authd)
        while True:
            n = g.pick([1, 1, 2, 3])
            authd = g.chance(0.93)
            roles = g.pick([None, None, {"broker": {"features": {"x": True}}}, {"dealer": {}}, ROUTER])
            steps, verdicts = [], []
            last = {}
            for _ in range(g.pick([2, 4, 6, 10])):
                k = g.r.randrange(n)
                r = g.r.random()
                whole = g.chance(0.5)
                if k not in last and r < 0.8 or r < 0.25:
                    method = g.pick(METHODS + ["wampcra", "cryptosign", "unknown"])
                    seed = g.r.randrange(4)
                    steps.append((k, "hello", whole, self.hello(g, method, seed), seed))
                    verdicts.append(self.verdict(g, method))
                    last[k] = method
                elif r < 0.85:
                    how = g.pick(HOWS)
                    arg = g.str() if how == "text" else g.r.randrange(200)
                    steps.append((k, "auth", whole, (how, arg), g.pick([{}, {"x": 1}, {"challenge": "00"}, {g.str(): g.value(1, False, False)}])))
                    if last.get(k) == "ticket":
                        verdicts.append(self.verdict(g, "ticket"))
                else:
                    m = g.pick(wamp.MESSAGES)
                    steps.append((k, "msg", whole, m.name, gen_fields(g, m)))
            yield n, g.pick(list(SER)), authd, roles, verdicts, steps

    def run(self, case):
        n, ser, authd, roles, verdicts, steps = case
        s = SER[ser]()
        server = Server(verdicts)
        roles0 = copy.deepcopy(roles)
        accs = [Acceptor(SER[ser](), authenticator=server if authd else None, roles=roles) for _ in range(n)]
        models = [Acc() for _ in range(n)]
        want_roles = roles0 if roles is not None else ROUTER
        ids, seen = set(), set()
        for num, st in enumerate(steps):
            k, what, whole = st[:3]
            a, m = accs[k], models[k]
            if what == "hello":
                f, kind = copy.deepcopy(st[3]), wamp.BY_NAME["Hello"]
            elif what == "auth":
                f, kind = {"signature": signature(m, st[3], models) if m.phase != "none" else str(st[3]), "extra": copy.deepcopy(st[4])}, wamp.BY_NAME["Authenticate"]
            else:
                kind = wamp.BY_NAME[st[3]]
                f = copy.deepcopy(st[4])
            if kind.name == "Hello" and m.phase == "none":
                x = (f.get("authextra") or {}).get("pubkey")
                if x is not None and (not isinstance(x, str) or unhex(x) is None):
                    continue                      # only keys in hex can be approved
            where = f"step {num + 1} of acceptor {k} ({m.phase}): {kind.name} {f!r}"
            msg = make(kind, f)
            asked0 = len(server.asked)
            if whole:
                o, r = outcome(a.receive, s.serialize(msg))
                if o == "ok":
                    if not isinstance(r, tuple) or len(r) != 2:
                        return f"{where} returns {r!r}"
                    data, final = r
                    r = None if data is None else s.deserialize(data)
                    if r is not None and bool(final) != isinstance(r, (messages.Welcome, messages.Abort)):
                        return f"{where}: {type(r).__name__} is reported as {'final' if final else 'not final'}"
            else:
                o, r = outcome(a.receive_message, msg)
            why = self.judge(m, kind, f, o, r, server, asked0, authd, want_roles, ids, seen, st[4] if what == "hello" else 0)
            if why:
                return f"{where}: {why}"
            for j, (x, y) in enumerate(zip(accs, models)):
                o, v = outcome(x.is_aborted)
                if v is not (y.phase == "aborted"):
                    return f"{where}: acceptor {j} ({y.phase}) reports aborted: {v!r}"
                o, v = outcome(x.get_session_details)
                if y.details is None:
                    if o == "ok" or not isinstance(v, ValueError):
                        return f"{where}: session details of acceptor {j} ({y.phase}): {v!r}"
                elif o != "ok" or not strict_eq((v.session_id, v.realm, v.authid, v.authrole), y.details):
                    return f"{where}: session details of acceptor {j}: " + (describe(v) if o != "ok" else repr((v.session_id, v.realm, v.authid, v.authrole))) + f", not {y.details!r}"
            if roles is not None and not strict_eq(roles, roles0):
                return f"{where}: changes the roles given"
        return None

    def judge(self, m, kind, f, o, r, server, asked0, authd, want_roles, ids, seen, seed):
        refused = o == "raise" and isinstance(r, ValueError)
        got = describe(r) if o == "raise" else f"answers {type(r).__name__} {read(wamp.BY_NAME[type(r).__name__], r)!r}" if r is not None else "no answer"
        asked = server.asked[asked0:]

        def out_of_order():
            if not refused:
                return f"must raise ValueError; {got}"
            if asked:
                return "asks the authenticator"

        def welcomed(authid, authrole):
            if not isinstance(r, messages.Welcome):
                return f"must be welcomed; {got}"
            if not (isinstance(r.session_id, int) and 1 <= r.session_id <= 2 ** 53):
                return f"session id {r.session_id!r}"
            if r.session_id in ids:
                return f"session id {r.session_id} a second time"
            ids.add(r.session_id)
            if not strict_eq((r.authid, r.authrole), (authid, authrole)):
                return f"WELCOME has {(r.authid, r.authrole)!r}, not {(authid, authrole)!r}"
            if r.authmethod is not None and r.authmethod != (m.method or "anonymous"):
                return f"WELCOME names the method {r.authmethod!r}"
            if m.named is not None and not strict_eq(r.session_id, m.named):
                return f"WELCOME has session id {r.session_id}, the challenge named {m.named!r}"
            if not strict_eq(r.roles, want_roles):
                return f"WELCOME has roles {r.roles!r}"
            m.phase, m.details = "welcomed", (r.session_id, m.hello["realm"], authid, authrole)

        def aborted(why=None):
            if not isinstance(r, messages.Abort):
                return f"must be answered with ABORT; {got}"
            if r.reason != FAILED:
                return f"ABORT has reason {r.reason!r}"
            if why is not None and not strict_eq(list(r.args or []), list(EXC[why[1]](*why[2]).args)):
                return f"ABORT has args {r.args!r}, the authenticator raised {why!r}"
            m.phase = "aborted"

        def question(cls, **more):
            want = {"method": m.method, "realm": m.hello["realm"], "authid": m.hello["authid"], "auth_extra": m.hello["authextra"], **more}
            if len(asked) != 1:
                return f"asks the authenticator {len(asked)} times"
            if asked[0][1] != cls or not strict_eq(asked[0][0], want):
                return f"asks the authenticator {asked[0][1]} {asked[0][0]!r}, not {want!r}"

        def challenge():
            if not isinstance(r, messages.Challenge) or r.authmethod != m.method:
                return f"must be answered with CHALLENGE {m.method}; {got}"
            m.phase = "challenged"
            if m.method == "ticket":
                return None
            c = r.extra.get("challenge") if isinstance(r.extra, dict) else None
            if not isinstance(c, str) or not c:
                return f"CHALLENGE has {r.extra!r}"
            if c in seen:
                return f"challenge {c!r} a second time"
            if m.method == "cryptosign" and (unhex(c) is None or len(unhex(c)) != 32):
                return f"challenge {c!r} is not 32 bytes in hex"
            if m.method == "wampcra":
                try:
                    d = json.loads(c)
                except ValueError:
                    return f"challenge {c!r} is not JSON"
                if not isinstance(d, dict) or not strict_eq([d.get(n) for n in ("authid", "authrole", "authmethod")], [*m.granted[1:3], "wampcra"]):
                    return f"challenge {c!r} does not name {m.granted[1:3]!r}"
                m.named = d.get("session")
                salt = dict(zip(("salt", "iterations", "keylen"), m.granted[4:]))
                if not strict_eq({n: r.extra[n] for n in ("salt", "iterations", "keylen") if r.extra.get(n) is not None}, salt):
                    return f"CHALLENGE for {m.granted!r} has {r.extra!r}"
            seen.add(c)
            m.challenge = c

        if m.phase == "welcomed":
            return out_of_order()
        if m.phase == "aborted":
            if o == "ok" and r is not None or o == "raise" and not refused:
                return f"must not be answered; {got}"
            return "asks the authenticator" if asked else None
        if kind.name == "Abort":
            if o != "ok" or r is not None:
                return f"ABORT must not be answered; {got}"
            m.phase = "aborted"
            return None
        if kind.name == "Hello" and m.phase == "none":
            m.hello = reported(wamp.BY_NAME["Hello"], f)
            m.seed = seed
            if not authd:
                return welcomed("anonymous", "anonymous")
            ms = f.get("authmethods")
            m.method = ms[0] if ms else "anonymous"
            if m.method == "ticket":
                return challenge() or ("asks the authenticator before it has the ticket" if asked else None)
            if m.method == "anonymous":
                q = question("AnonymousRequest")
                if q:
                    return q
                v = asked[0][2]
                return aborted(v) if v[0] == "raise" else welcomed(v[1], v[2])
            if m.method in ("wampcra", "cryptosign"):
                m.pubkey = (f.get("authextra") or {}).get("pubkey")
                if m.method == "cryptosign" and m.pubkey is None:
                    return self.ended(m, r, refused, got, asked)
                q = question("WAMPCRARequest") if m.method == "wampcra" else question("CryptoSignRequest", public_key=m.pubkey)
                if q:
                    return q
                v = m.granted = asked[0][2]
                if v[0] == "raise":
                    return aborted(v)
                if m.method == "wampcra" and v[0] == "ok":
                    return self.ended(m, r, refused, got, [])
                return challenge()
            return self.ended(m, r, refused, got, asked)
        if kind.name == "Authenticate" and m.phase == "challenged":
            if m.method == "ticket":
                q = question("TicketRequest", ticket=f["signature"])
                if q:
                    return q
                v = asked[0][2]
                return aborted(v) if v[0] == "raise" else welcomed(v[1], v[2])
            if asked:
                return "asks the authenticator"
            return welcomed(m.granted[1], m.granted[2]) if valid(m, f["signature"]) else aborted()
        return out_of_order()

    @staticmethod
    def ended(m, r, refused, got, asked):
        """A HELLO that cannot be served: refused, or aborted."""
        if asked:
            return "asks the authenticator"
        if isinstance(r, messages.Abort):
            m.phase = "aborted"
        elif not refused:
            return f"must be refused; {got}"


class A01(Acceptors):
    pass


class A02(Acceptors):
    pass


class A03(Acceptors):
    pass


class Stub(auth.IClientAuthenticator):
    """A client authenticator answering as the case says."""
    def __init__(self, method, authid, extra, answers):
        super().__init__(method, authid, extra)
        self.answers, self.got = list(answers), []

    def authenticate(self, challenge):
        self.got.append((challenge.authmethod, copy.deepcopy(challenge.extra)))
        a = self.answers.pop(0) if self.answers else ("raise", "ValueError")
        if a[0] == "raise":
            raise EXC[a[1]]("no")
        self.last = messages.Authenticate(messages.AuthenticateFields(a[0], copy.deepcopy(a[1])))
        return self.last


class J01:
    history = True
    NAMES = ["Welcome", "Challenge", "Abort"]

    def config(self, g):
        answers = [("raise", g.pick(list(EXC))) if g.chance(0.08) else (g.str(), g.pick([{}, {"a": 1}, {g.str(): g.value(1, False, False)}])) for _ in range(3)]
        return (g.str(), g.pick([None, (g.pick(METHODS + ["x"]), g.str(), g.pick([None, {}, {"a": [1]}, {"pubkey": "00"}, {g.str(): g.value(1, False, False) for _ in range(3)}]), answers)]))

    def cases(self, g):
        hello = (0, "hello", None)
        for ser in SER:
            for m in wamp.MESSAGES:
                for whole in (True, False):
                    f = gen_fields(g, m)
                    cf = ("realm1", ("ticket", "joe", {"a": 1}, [("sig", {}), ("sig2", {})]))
                    st = (0, "recv", whole, m.name, f)
                    ch = (0, "recv", whole, "Challenge", {"authmethod": "ticket", "extra": {"c": 1}})
                    w = (0, "recv", whole, "Welcome", {"session_id": 7, "roles": ROUTER, "authid": "i", "authrole": "r", "authmethod": None, "authextra": None})
                    ab = (0, "recv", whole, "Abort", {"details": {}, "reason": "x.y", "args": [1], "kwargs": {"k": 2}})
                    for before in ([], [hello], [hello, ch], [hello, w], [hello, ch, w], [hello, ab], [hello, ch, ab], [hello, w, ab], [hello, ab, hello],
                                   [hello, ch, hello]):
                        yield ser, [cf, cf], before + [st, w]
        while True:
            cfs = [self.config(g) for _ in range(g.pick([1, 2]))]
            steps = []
            for _ in range(g.pick([2, 4, 8])):
                k = g.r.randrange(len(cfs))
                r = g.r.random()
                if r < 0.3:
                    steps.append((k, "hello", g.pick([None, {"caller": {}}, {"callee": {"features": {"x": True}}}, gen_fields(g, wamp.BY_NAME["Hello"])["roles"]])))
                else:
                    m = wamp.BY_NAME[g.pick(self.NAMES)] if r < 0.92 else g.pick(wamp.MESSAGES)
                    steps.append((k, "recv", g.chance(0.5), m.name, gen_fields(g, m)))
            yield g.pick(list(SER)), cfs, steps

    def run(self, case):
        ser, cfs, steps = case
        s = SER[ser]()
        stubs = [None if a is None else Stub(a[0], a[1], copy.deepcopy(a[2]), a[3]) for _, a in cfs]
        joiners = [Joiner(realm, SER[ser](), st) for (realm, _), st in zip(cfs, stubs)]
        state = [{"phase": "none", "details": None, "stale": False} for _ in cfs]
        for num, st in enumerate(steps):
            k, what = st[:2]
            j, m, stub, (realm, conf) = joiners[k], state[k], stubs[k], cfs[k]
            if m["phase"] == "vague":
                continue
            if what == "hello":
                where = f"step {num + 1}: send_hello of joiner {k}"
                roles = copy.deepcopy(st[2])
                o, r = outcome(j.send_hello, *([] if roles is None else [roles]))
                if o == "raise":
                    return f"{where} raises {describe(r)}"
                h = s.deserialize(r)
                want = {"realm": realm, "roles": st[2] if st[2] is not None else CLIENT, "authid": conf[1] if conf else "",
                        "authmethods": [conf[0] if conf else "anonymous"], "authextra": (conf[2] if conf[2] is not None else {}) if conf else {}}
                if not isinstance(h, messages.Hello) or not strict_eq(read(wamp.BY_NAME["Hello"], h), want):
                    return f"{where} sends {type(h).__name__} {read(wamp.BY_NAME[type(h).__name__], h)!r}, not {want!r}"
                if not strict_eq(roles, st[2]):
                    return f"{where} changes the roles"
                m["stale"] = m["details"] is not None
                m["phase"] = "hello"
            else:
                _, _, whole, name, f = st
                kind = wamp.BY_NAME[name]
                where = f"step {num + 1} of joiner {k} ({m['phase']}): {name} {f!r}"
                msg = make(kind, copy.deepcopy(f))
                n0 = len(stub.got) if stub else 0
                o, r = outcome(j.receive, s.serialize(msg)) if whole else outcome(j.receive_message, msg)
                got = describe(r) if o == "raise" else f"gives {r!r}"
                asked = stub is not None and len(stub.got) > n0
                if name == "Welcome" and m["phase"] in ("hello", "answered"):
                    if o == "raise" or r is not None:
                        return f"{where}: must join; {got}"
                    m.update(phase="joined", details=(f["session_id"], realm, f["authid"], f["authrole"]), stale=False)
                elif name == "Challenge" and m["phase"] == "hello":
                    if stub is None:
                        if o == "ok":
                            return f"{where}: anonymous answers a challenge; {got}"
                        m["phase"] = "vague"
                        continue
                    if len(stub.got) != n0 + 1 or not strict_eq(stub.got[-1], (f["authmethod"], f["extra"] if f["extra"] is not None else {})):
                        return f"{where}: the authenticator is given {stub.got[n0:]!r}"
                    a = conf[3][n0] if n0 < len(conf[3]) else ("raise", "ValueError")
                    if a[0] == "raise":
                        if o == "ok":
                            return f"{where}: the authenticator failed; {got}"
                        m["phase"] = "vague"
                        continue
                    if o == "raise":
                        return f"{where}: must be answered; {got}"
                    if whole:
                        x = s.deserialize(r) if isinstance(r, (str, bytes)) else None
                        if not isinstance(x, messages.Authenticate) or not strict_eq((x.signature, x.extra), (a[0], a[1])):
                            return f"{where}: must answer {a!r}; {got}"
                    elif r is not stub.last and not (isinstance(r, messages.Authenticate) and strict_eq((r.signature, r.extra), (a[0], a[1]))):
                        return f"{where}: must answer {a!r}; {got}"
                    m["phase"] = "answered"
                    asked = False
                elif name == "Abort":
                    if o != "raise" or not isinstance(r, ApplicationError):
                        return f"{where}: must raise ApplicationError; {got}"
                    args = f["args"]
                    if whole and args is None and f["kwargs"] is not None:
                        args = []
                    e = (r.message, list(r.args) if args is not None else r.args, r.kwargs)
                    if r.message != f["reason"] or list(r.args or []) != list(args or []) or dict(r.kwargs or {}) != dict(f["kwargs"] or {}):
                        return f"{where}: raises {(r.message, r.args, r.kwargs)!r}"
                    m["phase"] = "none"
                else:
                    if o == "ok" or not isinstance(r, ValueError) or isinstance(r, ApplicationError):
                        return f"{where}: must raise ValueError; {got}"
                if asked:
                    return f"{where}: asks the authenticator"
            for i, (x, y) in enumerate(zip(joiners, state)):
                if y["phase"] == "vague" or y["stale"]:
                    continue
                o, v = outcome(x.get_session_details)
                if y["details"] is None:
                    if o == "ok" or not isinstance(v, ValueError):
                        return f"{where}: session details of joiner {i}: {v!r}"
                elif y["phase"] == "joined" and (o != "ok" or not strict_eq((v.session_id, v.realm, v.authid, v.authrole), y["details"])):
                    return f"{where}: session details of joiner {i} are not {y['details']!r}"
        return None


class Accepting:
    """A router's authenticator that knows its users."""
    def __init__(self, users):
        self.users = users

    def methods(self):
        return METHODS

    def authenticate(self, request):
        u = self.users[request.method, request.realm, request.authid]
        if request.method == "ticket" and request.ticket != u["ticket"]:
            raise ValueError("wrong ticket")
        if request.method == "cryptosign" and request.public_key != u["pubkey"]:
            raise ValueError("unknown key")
        if request.method == "wampcra":
            if u["salt"]:
                salt, n, length = u["salt"]
                stored = base64.b64encode(hashlib.pbkdf2_hmac("sha256", u["secret"].encode(), salt.encode(), n, length)).decode()
                return WAMPCRASaltedResponse(u["as"], u["role"], stored, salt, n, length)
            return auth.WAMPCRAResponse(u["as"], u["role"], u["secret"])
        return auth.Response(u["as"], u["role"])


def slip(secret, u):
    """A secret or ticket that is not quite the right one."""
    k = u.get("slip", 0)
    for w in (secret + "x", secret + " ", " " + secret, secret[:-1], secret[1:], secret.swapcase(), secret + "\x01", secret * 2)[k:]:
        if w.rstrip("\0") != secret.rstrip("\0"):    # (keys that differ in zero bytes at the end are equal to HMAC)
            return w
    return secret + "x"


class H01:
    history = True

    def one(self, g, method, ser, wrong):
        return {"method": method, "ser": ser, "realm": g.str(), "authid": g.str(), "secret": g.str() if g.chance(0.8) else g.str() * g.pick([5, 20, 70]), "seed": g.r.randrange(65536), "as": g.str(), "role": g.str(),
                "extra": g.pick([None, None, {}, {"x": [1, {"y": "z"}]}]), "wrong": wrong, "slip": g.r.randrange(8), "reuse": g.chance(0.3), "given": g.chance(0.3),
                "salt": (g.str(), g.pick([1, 2, 10, 1000]), g.pick([16, 32, 33, 64])) if g.chance(0.4) else None}

    def cases(self, g):
        for i in range(16):
            for v in ((1, "r", "a", "o"), (g.id(), g.str(), g.str(), g.str())):
                yield [{"details": (v, tuple(x if i >> k & 1 else g.pick([x * 2, x + x[:1] if k else x + 1]) for k, x in enumerate(v)))}],
        for i in range(15):
            for _ in range(12):
                v = (g.id(), "Realm.one", g.pick(["Joe", "joe@x.org", " Joe"]), g.pick(["Admin", "user-1"]))
                yield [{"details": (v, tuple(x if i >> k & 1 else g.near(x) for k, x in enumerate(v)))}],
        for sep in ["", ":", "/", ".", ",", "|", "-", "_", " ", "\x00", "\n", "', '", "', authid='", "@", ";", "\t", "::"]:
            parts = ["a", "b", "a", "b", "a"]           # the same text, divided otherwise
            both = [(1, sep.join(parts[:i]), sep.join(parts[i:j]), sep.join(parts[j:])) for i in range(1, 4) for j in range(i + 1, 5)]
            yield [{"details": p} for p in itertools.permutations(both, 2)],
        yield [{"details": p} for p in itertools.permutations([(1, "1a", "b", "c"), (11, "a", "b", "c"), (1, "1a", "", "bc"), (11, "", "ab", "c"),
                                                               (1, "a", "b", ""), (1, "", "a", "b"), (1, "b", "a", ""), (1, "a", "", "b"), (1, "", "", "")], 2)],
        for ser in SER:
            for method in METHODS + ["none"]:
                for wrong in (False, True):
                    for _ in range(3):
                        yield [self.one(g, method, ser, wrong)],
        while True:
            yield [self.one(g, g.pick(METHODS + ["cryptosign", "wampcra", "none"]), g.pick(list(SER)), g.chance(0.25)) for _ in range(g.pick([1, 2, 3]))],

    def run(self, case):
        (runs,) = case
        for u in [u for u in runs if "details" in u]:
            v, w = u["details"]
            a, b = types.SessionDetails(*v), types.SessionDetails(*w)
            for x, want in ((a, v), (b, w)):
                if not strict_eq((x.session_id, x.realm, x.authid, x.authrole), tuple(want)):
                    return f"SessionDetails{want!r} report {(x.session_id, x.realm, x.authid, x.authrole)!r}"
            if bool(a == b) != (v == w) or bool(a != b) == (v == w):
                return f"SessionDetails{v!r} == SessionDetails{w!r} gives {a == b!r}"
            if a == None or a == v or a == v[1]:
                return f"SessionDetails{v!r} are equal to something else"
        runs = [u for u in runs if "details" not in u]
        users, parties, again = {}, [], {}
        for u in runs:
            users[u["method"], u["realm"], u["authid"]] = {"ticket": u["secret"], "secret": u["secret"], "pubkey": pub(u["seed"]), "as": u["as"], "role": u["role"],
                                                                  "salt": u.get("salt")}
        server = Accepting(users)
        for u in runs:
            me = users[u["method"], u["realm"], u["authid"]]
            extra = copy.deepcopy(u["extra"])
            kw = {} if extra is None else {"auth_extra": extra}
            wrong = u["wrong"] and u["method"] in ("wampcra", "cryptosign", "ticket")
            if u["method"] == "anonymous":
                a = auth.AnonymousAuthenticator(u["authid"], **kw)
            elif u["method"] == "ticket":
                a = auth.TicketAuthenticator(u["authid"], slip(me["ticket"], u) if wrong else me["ticket"], **kw)
            elif u["method"] == "wampcra":
                a = auth.WAMPCRAAuthenticator(u["authid"], slip(me["secret"], u) if wrong else me["secret"], **kw)
            elif u["method"] == "cryptosign":
                seed = next(x["seed"] for x in reversed(runs) if (x["method"], x["realm"], x["authid"]) == (u["method"], u["realm"], u["authid"]))
                if wrong or u["given"]:
                    kw = {"auth_extra": {**(extra or {}), "pubkey": me["pubkey"]}}
                a = auth.CryptoSignAuthenticator(u["authid"], bytes(key(seed + wrong)).hex(), **kw)
            else:
                a = None
            who = (u["method"], u["authid"], repr(extra), wrong, me["secret"], u["given"], repr(me["pubkey"]))
            if u.get("reuse") and not wrong and u["method"] != "none":
                a = again.setdefault(who, a)        # the client connects again with the authenticator it has
            j = Joiner(u["realm"], SER[u["ser"]](), a)
            c = Acceptor(SER[u["ser"]](), authenticator=None if u["method"] == "none" else server)
            parties.append([u, j, c, wrong, None, 0, False])
        for p in parties:
            p[4] = p[1].send_hello()
        for _ in range(4):
            for i, p in enumerate(parties):
                u, j, c, wrong, data, _, done = p
                if done:
                    continue
                where = f"handshake {i + 1} ({u['method']}, {u['ser']})"
                o, r = outcome(c.receive, data)
                if o == "raise":
                    return f"{where}: the acceptor raises {describe(r)}"
                reply, final = r
                o, r = outcome(j.receive, reply)
                if o == "raise":
                    if wrong and isinstance(r, ApplicationError) and r.message == FAILED:
                        if not c.is_aborted():
                            return f"{where}: ABORT was sent, but the acceptor is not aborted"
                        if outcome(j.get_session_details)[0] == "ok":
                            return f"{where}: session details after ABORT"
                        p[6] = True
                        continue
                    return f"{where}: the joiner raises {describe(r)}"
                p[4] = r
                if r is None:
                    if wrong:
                        return f"{where}: joined with a wrong secret"
                    o, x = outcome(j.get_session_details)
                    q, y = outcome(c.get_session_details)
                    if o == "raise" or q == "raise":
                        return f"{where}: session details: {x!r} {y!r}"
                    if not final:
                        return f"{where}: WELCOME is not final"
                    tx, ty = [(d.session_id, d.realm, d.authid, d.authrole) for d in (x, y)]
                    if not strict_eq(tx, ty) or not x == y:
                        return f"{where}: the joiner reports {tx!r}, the acceptor {ty!r}"
                    want = (u["realm"],) + (("anonymous", "anonymous") if u["method"] == "none" else
                                            (users[u["method"], u["realm"], u["authid"]]["as"], users[u["method"], u["realm"], u["authid"]]["role"]))
                    if tx[1:] != want:
                        return f"{where}: session details are {tx!r}"
                    p[6] = True
        for i, p in enumerate(parties):
            if not p[6]:
                return f"handshake {i + 1} ({p[0]['method']}) does not end"
        return None
