"""S01, S02: the client session.

Pre-state: any contents of the nine request and id collections.  Each message type is sent and received once; the
postcondition gives exactly when it is accepted and what each collection then holds.  By induction over histories
the collections hold the open requests, held registrations, subscriptions and invocations, which is what S01 and S02 say.
"""
import z3

from wampproto import messages
from wampproto import session as session_mod
from spec import wamp
from .common import *
from .messages import arbitrary_fields, build

SETS = ["_call_requests", "_register_requests", "_registrations", "_invocation_requests", "_publish_requests",
        "_subscribe_requests", "_subscriptions"]
MAPS = ["_unregister_requests", "_unsubscribe_requests"]
KEPT = set(SETS + MAPS + ["_serializer"])


def serializer_ext(e, msg=None, may_refuse=False):
    """A serializer: serialize gives a fresh value and records its argument, or refuses it; deserialize gives msg."""
    def serialize(en, args, kwargs):
        if may_refuse and en.choose(2):
            en.ghost["refused"] = True
            en.throw(TypeError, "Object is not serializable")
        t = en.fresh("sent")
        en.ghost["serialized"] = en.ghost.get("serialized", ()) + ((args[0] if args else kwargs["message"], t),)
        return SBytes(t)

    def deserialize(en, args, kwargs):
        en.ghost["deserialized"] = en.ghost.get("deserialized", ()) + (args[0] if args else kwargs["data"],)
        return msg
    return External("serializer", {"serialize": serialize, "deserialize": deserialize})


def a_session(e, ser):
    """A session in any state, and its collections before the step."""
    s = e.call(session_mod.WAMPSession, [ser], {})
    if not isinstance(s, HInst) or not KEPT <= set(s.attrs):
        raise Unsupported(f"representation of the session: {sorted(getattr(s, 'attrs', {}))}")
    e.ghost["spare"] = spare(e, s, KEPT)
    pre = {}
    for n in SETS:
        v = e.resolve(s.attrs[n])
        if not isinstance(v, HSet) or v.items:
            raise Unsupported(f"representation of {n}: {v!r}")
        has = z3.Const("pre" + n, z3.ArraySort(I, B))
        s.attrs[n] = e.track(RootSet(n, K_INT, has))
        pre[n] = (has, None)
    for n in MAPS:
        v = e.resolve(s.attrs[n])
        if not isinstance(v, HDict) or v.entries:
            raise Unsupported(f"representation of {n}: {v!r}")
        has, get = z3.Const("pre" + n, z3.ArraySort(I, B)), z3.Const("get" + n, z3.ArraySort(I, I))
        s.attrs[n] = e.track(RootMap(n, K_INT, K_INT, has, get))
        pre[n] = (has, get)
    return s, pre


def initial(e):
    """A new session has no open requests and holds nothing, whatever other sessions do."""
    ob = "S01 new session"
    ser = serializer_ext(e)
    s1, s2 = e.call(session_mod.WAMPSession, [ser], {}), e.call(session_mod.WAMPSession, [ser], {})
    e.cover(ob)
    own = set()
    for s in (s1, s2):
        if not isinstance(s, HInst) or not KEPT <= set(s.attrs):
            raise Unsupported("representation of the session")
        spare(e, s, KEPT)
        for n in SETS + MAPS:
            v = s.attrs[n]
            e.prove(f"{ob}: {n} is empty", isinstance(v, (HSet, HDict)) and len(v.items if isinstance(v, HSet) else v.entries) == 0)
            e.prove(f"{ob}: {n} is its own", id(v) not in own)
            own.add(id(v))


def option(e, msg, name, field):
    """Truth of a boolean option of a message; the value, if there, is a boolean."""
    d = e.getattr(msg, field)
    d = e.resolve(d)
    if isinstance(d, HDict):
        return False
    k = Val.str(lit(name))
    e.assume(z3.Implies(dhas(d.r, k), Val.is_bool(dget(d.r, k))))
    return z3.And(dhas(d.r, k), Val.bv(dget(d.r, k)))


def contents(e, s, ob):
    """Collections of the session after the step."""
    spared(e, s, KEPT, e.ghost["spare"])
    out = {}
    for n in SETS + MAPS:
        v = e.resolve(s.attrs[n])
        if not isinstance(v, (RootSet, RootMap)):
            raise Unsupported(f"the step replaces {n}")
        out[n] = (v.has, v.get if isinstance(v, RootMap) else None)
    return out


def post_is(e, ob, post, pre, changes):
    """The collections are as before except for the changes (name -> (has, get))."""
    for n in SETS + MAPS:
        has, get = changes.get(n, pre[n])
        k = z3.Int("k")
        e.prove(f"{ob}: {n} afterwards", post[n][0] == has)
        if n in MAPS:
            e.prove(f"{ob}: {n} afterwards (values)", z3.Implies(z3.Select(has, k), z3.Select(post[n][1], k) == z3.Select(get, k)))


def term(e, msg, name):
    t = e.num(e.getattr(msg, name))
    if t is None:
        raise Unsupported(f"{name} is not an integer")
    return t


ADD = {"Call": "_call_requests", "Register": "_register_requests", "Subscribe": "_subscribe_requests"}
REPLY = {"Registered": ("_register_requests", "_registrations", "registration_id"),
         "Subscribed": ("_subscribe_requests", "_subscriptions", "subscription_id")}
END = {"Unregistered": ("_unregister_requests", "_registrations"), "Unsubscribed": ("_unsubscribe_requests", "_subscriptions")}
ERRORS = {48: "_call_requests", 64: "_register_requests", 66: "_unregister_requests", 32: "_subscribe_requests",
          34: "_unsubscribe_requests", 16: "_publish_requests"}


def send(m):
    def run(e):
        ob = f"{'S02' if m.name in ('Yield', 'Error') or m.name not in SENDABLE else 'S01'} sending {m.name}"
        msg = build(e, m, arbitrary_fields(e, m))
        before = e.snapshot()
        ser = serializer_ext(e, may_refuse=True)
        s, pre = a_session(e, ser)
        ch = {}
        accept = True
        if m.name in SENDABLE and m.name not in ("Goodbye",):
            i = term(e, msg, "request_id")
        if m.name in ADD:
            n = ADD[m.name]
            ch[n] = (z3.Store(pre[n][0], i, TRUE), None)
        elif m.name in ("Unregister", "Unsubscribe"):
            n = f"_{m.name.lower()}_requests"
            ch[n] = (z3.Store(pre[n][0], i, TRUE),
                     z3.Store(pre[n][1], i, term(e, msg, "registration_id" if m.name == "Unregister" else "subscription_id")))
        elif m.name == "Publish":
            n = "_publish_requests"
            ch[n] = (z3.If(Z(option(e, msg, "acknowledge", "options")), z3.Store(pre[n][0], i, TRUE), pre[n][0]), None)
        elif m.name == "Yield":
            n = "_invocation_requests"
            accept = z3.Select(pre[n][0], i)
            ch[n] = (z3.If(Z(option(e, msg, "progress", "options")), pre[n][0], z3.Store(pre[n][0], i, FALSE)), None)
        elif m.name == "Error":
            n = "_invocation_requests"
            accept = term(e, msg, "message_type") == 68
            ch[n] = (z3.Store(pre[n][0], i, FALSE), None)
        elif m.name != "Goodbye":
            accept = False
        ok, r = method(e, s, "send_message", msg)
        post = contents(e, s, ob)
        if e.ghost.get("refused"):
            if accept is not False:
                e.cover(f"{ob} that cannot be serialised")
            e.prove(f"{ob} that cannot be serialised: raises", not ok, info=r)
            post_is(e, f"{ob} that cannot be serialised", post, pre, {})
            return
        if not ok:
            e.prove(f"{ob}: a refusal is a ValueError", is_exc(r, ValueError), info=r)
            e.prove(f"{ob}: refused only when it has to be", Not(accept))
            post_is(e, f"{ob} refused", post, pre, {})
            return
        if accept is not False:
            e.cover(ob)
        e.prove(f"{ob}: accepted only when it may be sent", accept)
        post_is(e, ob, post, pre, ch)
        sent = e.ghost.get("serialized", ())
        e.prove(f"{ob}: what is sent is the serialisation of the message given",
                len(sent) >= 1 and And(sent[-1][0] is msg, e.eq(r, SBytes(sent[-1][1]))))
        e.prove(f"{ob}: the message is not changed", all(same(o.content(), c) for o, c in before["objs"]) and not e.jmut)
    return run


SENDABLE = ("Call", "Register", "Unregister", "Subscribe", "Unsubscribe", "Publish", "Yield", "Error", "Goodbye")
PROP_OF_RECEIVE = {"Event": "S02", "Invocation": "S02", "Goodbye": "S02", "Abort": "S02"}
RECEIVABLE = ("Result", "Registered", "Unregistered", "Subscribed", "Unsubscribed", "Published", "Error", "Event", "Invocation",
              "Goodbye", "Abort")


def receive(m):
    prop = "S02" if m.name in PROP_OF_RECEIVE or m.name not in RECEIVABLE else "S01"

    def run(e):
        ob = f"{prop} receiving {m.name}"
        msg = build(e, m, arbitrary_fields(e, m))
        before = e.snapshot()
        ser = serializer_ext(e, msg)
        s, pre = a_session(e, ser)
        ch, accept, maybe_pop = {}, True, None
        if m.name in RECEIVABLE and m.name not in ("Goodbye", "Abort", "Event"):
            i = term(e, msg, "request_id")
        if m.name == "Result":
            n = "_call_requests"
            accept = z3.Select(pre[n][0], i)
            ch[n] = (z3.If(Z(option(e, msg, "progress", "details")), pre[n][0], z3.Store(pre[n][0], i, FALSE)), None)
        elif m.name in REPLY:
            n, held, f = REPLY[m.name]
            accept = z3.Select(pre[n][0], i)
            ch[n] = (z3.Store(pre[n][0], i, FALSE), None)
            ch[held] = (z3.Store(pre[held][0], term(e, msg, f), TRUE), None)
        elif m.name in END:
            n, held = END[m.name]
            j = z3.Select(pre[n][1], i)
            accept = z3.And(z3.Select(pre[n][0], i), z3.Select(pre[held][0], j))
            ch[n] = (z3.Store(pre[n][0], i, FALSE), pre[n][1])
            ch[held] = (z3.Store(pre[held][0], j, FALSE), None)
            maybe_pop = n
        elif m.name == "Published":
            n = "_publish_requests"
            accept = z3.Select(pre[n][0], i)
            ch[n] = (z3.Store(pre[n][0], i, FALSE), None)
        elif m.name == "Error":
            t = term(e, msg, "message_type")
            accept = z3.Or([z3.And(t == c, z3.Select(pre[n][0], i)) for c, n in ERRORS.items()])
            for c, n in ERRORS.items():
                ch[n] = (z3.If(t == c, z3.Store(pre[n][0], i, FALSE), pre[n][0]), pre[n][1])
        elif m.name == "Invocation":
            accept = z3.Select(pre["_registrations"][0], term(e, msg, "registration_id"))
            n = "_invocation_requests"
            ch[n] = (z3.Store(pre[n][0], i, TRUE), None)
        elif m.name == "Event":
            accept = z3.Select(pre["_subscriptions"][0], term(e, msg, "subscription_id"))
        elif m.name not in ("Goodbye", "Abort"):
            accept = False
        whole = e.choose(2)
        data = sbytes("data")
        ok, r = method(e, s, "receive", data) if whole else method(e, s, "receive_message", msg)
        post = contents(e, s, ob)
        if whole:
            ds = e.ghost.get("deserialized", ())
            e.prove(f"{ob}: what is received is decoded once", len(ds) == 1 and ds[0] is data)
        if not ok:
            e.prove(f"{ob}: a refusal is a ValueError", is_exc(r, ValueError), info=r)
            e.prove(f"{ob}: refused only when it has to be", Not(accept))
            if maybe_pop:
                # a refused UNREGISTERED / UNSUBSCRIBED may or may not count as an answer to its request
                e.prove(f"{ob} refused: {maybe_pop} afterwards",
                        z3.Or(post[maybe_pop][0] == pre[maybe_pop][0], post[maybe_pop][0] == z3.Store(pre[maybe_pop][0], i, FALSE)))
                pre[maybe_pop] = (post[maybe_pop][0], pre[maybe_pop][1])
            post_is(e, f"{ob} refused", post, pre, {})
            return
        if accept is not False:
            e.cover(ob)
        e.prove(f"{ob}: accepted only when it answers or belongs to something open", accept)
        post_is(e, ob, post, pre, ch)
        e.prove(f"{ob}: returns the message", r is msg or same(r, msg))
        e.prove(f"{ob}: the message is not changed", all(same(o.content(), c) for o, c in before["objs"]) and not e.jmut)
    return run, prop


def tasks_s01():
    out = [Task("S01 new session", initial)]
    for m in wamp.MESSAGES:
        run, prop = receive(m)
        if prop == "S01":
            out.append(Task(f"S01 receiving {m.name}", run))
        if m.name in SENDABLE and m.name not in ("Yield", "Error"):
            out.append(Task(f"S01 sending {m.name}", send(m)))
    return out


def tasks_s02():
    """S02 also needs what confirms and ends registrations and subscriptions."""
    out = [Task("S01 new session", initial)]
    for m in wamp.MESSAGES:
        run, prop = receive(m)
        out.append(Task(f"S02 receiving {m.name}", run))
        out.append(Task(f"S02 sending {m.name}", send(m)))
    return out
