"""J01: the client side of the handshake.

The real Joiner is driven, from its constructor, through send_hello and messages of every type with arbitrary fields,
with a client authenticator that answers or raises as it likes.  States that differ only in the names of arbitrary values
are explored once, so the argument covers histories of any length.
"""
import re

import z3

from wampproto import auth, joiner as joiner_mod, messages
from wampproto.exception import ApplicationError
from spec import wamp
from .common import *
from .acceptor import eqv, field, is_a, lazy_fields
from .messages import build
from .session import serializer_ext

OTHER = [m for m in wamp.MESSAGES if m.name not in ("Welcome", "Challenge", "Abort")]
EVENTS = ["send_hello", "Welcome", "Challenge", "Abort", "another message"]
CLIENT_ROLES = ("caller", "callee", "publisher", "subscriber")


def consts(t):
    """Names of the unknowns (constants without interpretation) in a term."""
    out, seen, todo = set(), set(), [t]
    while todo:
        u = todo.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if z3.is_quantifier(u):
            todo.append(u.body())
        elif z3.is_app(u):
            if u.num_args() == 0 and u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(u.decl().name())
            todo.extend(u.children())
    return out


def state_key(e, roots):
    """A name of the state reachable from the roots, the same for states that differ only in the names of unknowns."""
    out, terms, seen = [], [], {}

    def put(v):
        v = e.resolve(v) if not isinstance(v, (tuple, list, dict)) else v
        if v is None or isinstance(v, (bool, int, float, str, bytes)):
            out.append(repr(v))
        elif isinstance(v, (tuple, list)):
            out.append("(")
            for x in v:
                put(x)
            out.append(")")
        elif isinstance(v, dict):
            put(sorted(v.items()))
        elif z3.is_expr(v):
            terms.append(v)
            out.append(v.sexpr())
        elif isinstance(v, (SAny, SStr, SBytes, SInt, SBool, JDict, JList)):
            out.append(type(v).__name__)
            put(v.t)
        elif isinstance(v, External):
            out.append(v.name)
        elif id(v) in seen:
            out.append(f"#{seen[id(v)]}")
        elif isinstance(v, HInst):
            seen[id(v)] = len(seen)
            out.append(v.cls.__name__)
            put(v.attrs)
        elif isinstance(v, HDict):
            seen[id(v)] = len(seen)
            out.append("{")
            for k, x in v.entries:
                put(k)
                put(x)
        elif isinstance(v, HList):
            seen[id(v)] = len(seen)
            put(list(v.items))
        elif not hasattr(v, "__dict__") or isinstance(v, type):
            out.append(repr(v))
        else:
            raise Unsupported(f"state holds {v!r}")

    put(roots)
    names = set().union(*[consts(t) for t in terms] or [set()])
    todo, used = list(e.pc), []
    while True:
        hit = [f for f in todo if consts(f) & names]
        if not hit:
            break
        used += hit
        todo = [f for f in todo if not any(f is h for h in hit)]
        names = names.union(*[consts(f) for f in hit])
    text = " ".join(out) + " | " + " ; ".join(sorted({f.sexpr() for f in e.pc if any(f is u for u in used)}))
    order = {}
    return re.sub(r"[\w.]+@\d+", lambda m: order.setdefault(m.group(0), f"${len(order)}"), text)


class Spec:
    """Where the handshake is: none, hello (sent), answered (a CHALLENGE), joined."""
    def __init__(self, e):
        self.e, self.phase, self.details, self.stale = e, "none", None, False

    def prove(self, name, f, info=None):
        self.e.prove(f"J01 {name}", f, info=info)


def client_ext(e, method_v, authid, extra):
    """A client authenticator: answers some AUTHENTICATE or fails."""
    def authenticate(en, args, kwargs):
        n = len(en.ghost.get("challenged", ()))
        c = en.resolve(args[0] if args else kwargs["challenge"])
        if en.choose(2):
            en.ghost["challenged"] = en.ghost.get("challenged", ()) + ((c, None),)
            raise PyRaise(en.exc(ValueError, sstr(f"why@{n}")))
        r = build(en, wamp.BY_NAME["Authenticate"], lazy_fields(en, wamp.BY_NAME["Authenticate"]))
        en.ghost["challenged"] = en.ghost.get("challenged", ()) + ((c, r),)
        return r
    return External("authenticator", {"authenticate": authenticate}, {"auth_method": method_v, "authid": authid, "auth_extra": extra},
                    auth.IClientAuthenticator)


def sent_since(e, n0):
    return e.ghost.get("serialized", ())[n0:]


def hello_step(s, j, realm, given):
    e = s.e
    roles = maybe(e, lambda: field_roles(e))
    n0 = len(sent_since(e, 0))
    ok, r = method(e, j, "send_hello", *([] if roles is None else [roles]))
    s.prove("send_hello does not raise", ok, info=r)
    if not ok:
        return False
    sent = sent_since(e, n0)
    s.prove("send_hello gives what the serializer made of one message", len(sent) == 1 and eqv(e, r, SBytes(sent[-1][1])), info=r)
    if len(sent) != 1:
        return False
    h = e.resolve(sent[0][0])
    s.prove("the message is HELLO", is_a(h, messages.Hello), info=h)
    if not is_a(h, messages.Hello):
        return False
    s.prove("HELLO has the realm", eqv(e, field(e, h, "realm"), realm), info=h)
    s.prove("HELLO has the authenticator's id", eqv(e, field(e, h, "authid"), given[1]), info=h)
    ms = field(e, h, "authmethods")
    s.prove("HELLO asks for the authenticator's method", eqv(e, ms, e.track(HList([given[0]]))), info=ms)
    s.prove("HELLO has the authenticator's extra", eqv(e, field(e, h, "authextra"), given[2]), info=h)
    rs = field(e, h, "roles")
    if roles is not None:
        s.prove("HELLO has the roles given", eqv(e, rs, roles), info=rs)
    else:
        s.prove("HELLO announces the client roles", And(*[Not(e.dict_find(rs, n) is MISSING) for n in CLIENT_ROLES]), info=rs)
    s.stale = s.details is not None
    s.phase = "hello"
    return True


def field_roles(e):
    from .messages import field_value
    e.ghost["built"] = e.ghost.get("built", 0) + 1
    return field_value(e, None, f"roles@{e.ghost['built']}", "roles")


def message_step(s, j, name, realm, whole, msg_box):
    e = s.e
    if name == "another message":
        vals, msg = None, e.track(HLazy(e, {getattr(messages, x.name): (lambda x=x: build(e, x, lazy_fields(e, x))) for x in OTHER}))
    else:
        m = wamp.BY_NAME[name]
        vals = lazy_fields(e, m, ("args", "kwargs") if name == "Abort" else ())
        msg = build(e, m, vals)
    n0, asked0 = len(sent_since(e, 0)), len(e.ghost.get("challenged", ()))
    msg_box[0] = msg
    ok, r = method(e, j, "receive", sbytes("data")) if whole else method(e, j, "receive_message", msg)
    r = e.resolve(r)
    asked = e.ghost.get("challenged", ())[asked0:]
    sent = sent_since(e, n0)
    if name == "Welcome" and s.phase in ("hello", "answered"):
        s.prove("a due WELCOME is accepted", ok, info=r)
        s.prove("WELCOME is not answered", ok and r is None, info=r)
        s.prove("WELCOME: nothing is asked or sent", not asked and not sent)
        s.phase, s.stale = "joined", False
        s.details = (vals["session_id"], realm, vals["authid"], vals["authrole"])
        return True
    if name == "Challenge" and s.phase == "hello":
        s.prove("the authenticator is asked once", len(asked) == 1, info=asked)
        if len(asked) != 1:
            return False
        s.prove("the authenticator is given the CHALLENGE", asked[0][0] is msg, info=asked)
        if asked[0][1] is None:
            s.prove("a failing authenticator gives no answer", not ok or r is None, info=r)
            return False                      # how the handshake goes on is left open
        s.prove("a due CHALLENGE is answered", ok, info=r)
        if not ok:
            return False
        if whole:
            s.prove("the reply is what the serializer made of the authenticator's answer",
                    len(sent) == 1 and e.resolve(sent[0][0]) is asked[0][1] and eqv(e, r, SBytes(sent[0][1])), info=(r, sent))
        else:
            s.prove("the answer is the authenticator's", r is asked[0][1], info=r)
        s.phase = "answered"
        return True
    s.prove(f"{name}: the authenticator is not asked", not asked)
    if name == "Abort":
        good = not ok and is_exc(r, ApplicationError)
        s.prove("ABORT raises ApplicationError", good, info=r)
        if not good:
            return False
        s.prove("the error has the reason", eqv(e, field(e, r, "message"), vals["reason"]), info=r)
        want = vals["args"] if vals["args"] is not None else e.track(HList())
        ok, got = attempt(e, list, field(e, r, "args"))
        s.prove("the error has the args", ok and eqv(e, got, want), info=got)
        s.prove("the error has the kwargs", kwargs_eq(e, field(e, r, "kwargs"), vals["kwargs"]), info=r)
        s.phase = "none"
        return True
    s.prove(f"a {name} out of order raises ValueError", not ok and is_exc(r, ValueError), info=r)
    return True                               # and leaves the handshake where it was: the phase stays


def kwargs_eq(e, got, want):
    if want is None:
        return got is None or eqv(e, got, e.track(HDict()))
    return eqv(e, got, want)


def after(s, j):
    e = s.e
    if s.stale:
        return                                # a second handshake on the same joiner, not yet joined
    ok, v = method(e, j, "get_session_details")
    if s.details is None:
        s.prove("no session details before WELCOME", not ok and is_exc(v, ValueError), info=v)
    elif s.phase == "joined":
        s.prove("session details are available after WELCOME", ok, info=v)
        if ok:
            for n, w in zip(("session_id", "realm", "authid", "authrole"), s.details):
                s.prove(f"session details have the {n} of the session", eqv(e, field(e, v, n), w), info=v)


def drive(whole, with_auth):
    seen = {}

    def run(e):
        s = Spec(e)
        box = [None]
        ser = serializer_ext(e)
        ser.methods["deserialize"] = lambda en, args, kwargs: box[0]
        realm = sstr("my_realm")
        given = (sstr("my_method"), sstr("my_authid"), jdict(e, "my_extra")) if with_auth else ("anonymous", "", e.track(HDict()))
        j = e.call(joiner_mod.Joiner, [realm, ser], {"authenticator": client_ext(e, *given) if with_auth else None})
        for depth in range(12):
            after(s, j)
            key = state_key(e, (s.phase, s.stale, s.details, j.attrs, realm, given))
            if seen.setdefault(key, list(e.trace)) != e.trace:
                return
            ev = EVENTS[e.choose(len(EVENTS))]
            if not with_auth and ev == "Challenge" and s.phase == "hello":
                ok, r = method(e, j, "receive_message", build(e, wamp.BY_NAME["Challenge"], lazy_fields(e, wamp.BY_NAME["Challenge"])))
                s.prove("an anonymous client answers no challenge", not ok or e.resolve(r) is None, info=r)
                return
            e.cover(f"J01 {ev} when {s.phase}")
            moved = hello_step(s, j, realm, given) if ev == "send_hello" else message_step(s, j, ev, realm, whole, box)
            if not moved:
                return                        # back where it was
        raise Unsupported("the handshake does not come back to a known state")
    return run


def tasks_j01():
    out = []
    for with_auth in (True, False):
        for whole in (True, False):
            out.append(Task(f"J01 {'with' if with_auth else 'without'} authenticator, {'data' if whole else 'messages'}", drive(whole, with_auth), budget=500,
                            weight=5, doc="every history of a Joiner",
                            needs=[f"J01 {x} when {y}" for x in ("Welcome", "Abort", "send_hello", "another message") for y in ("none", "hello", "joined")]
                            + (["J01 Welcome when answered", "J01 Challenge when answered"] if with_auth else [])))
    return out
