"""Histories of the real Broker, Dealer, Session and Joiner without unknowns, told as plain data."""
from wampproto import messages
from wampproto.broker import Broker
from wampproto.dealer import Dealer

from wampproto.types import SessionDetails

F = []


def t(fn):
    F.append((fn, ()))
    return fn


def details(n):
    return SessionDetails(n, "realm", f"user{n}", "anonymous")


def told(o):
    return o.recipient, o.message.marshal()


@t
def dealer_call_yield():
    d = Dealer()
    d.add_session(details(1))
    d.add_session(details(2))
    r = d.receive_message(1, messages.Register(messages.RegisterFields(7, "a.b")))
    rid = r.message.registration_id
    i = d.receive_message(2, messages.Call(messages.CallFields(9, "a.b", [1, 2], {"k": 3})))
    y = d.receive_message(1, messages.Yield(messages.YieldFields(i.message.request_id, [5])))
    return (r.recipient, i.recipient, i.message.registration_id == rid, i.message.args, i.message.kwargs, told(y))


@t
def dealer_no_procedure():
    d = Dealer()
    d.add_session(details(1))
    return told(d.receive_message(1, messages.Call(messages.CallFields(9, "a.b"))))


@t
def dealer_twice():
    d = Dealer()
    d.add_session(details(1))
    d.add_session(details(2))
    d.receive_message(1, messages.Register(messages.RegisterFields(7, "a.b")))
    r = d.receive_message(2, messages.Register(messages.RegisterFields(8, "a.b")))
    return told(r)


@t
def dealer_unregister():
    d = Dealer()
    d.add_session(details(1))
    d.add_session(details(2))
    r = d.receive_message(1, messages.Register(messages.RegisterFields(7, "a.b")))
    rid = r.message.registration_id
    before = d.has_registration("a.b")
    x = None
    try:
        d.receive_message(2, messages.Unregister(messages.UnregisterFields(3, rid)))
    except ValueError as e:
        x = type(e).__name__
    between = d.has_registration("a.b")
    y = d.receive_message(1, messages.Unregister(messages.UnregisterFields(4, rid)))
    return before, x, between, told(y), d.has_registration("a.b")


@t
def dealer_leaves():
    d = Dealer()
    d.add_session(details(1))
    d.add_session(details(2))
    d.receive_message(1, messages.Register(messages.RegisterFields(7, "a.b")))
    d.receive_message(2, messages.Register(messages.RegisterFields(8, "a.c")))
    d.remove_session(1)
    return d.has_registration("a.b"), d.has_registration("a.c"), told(d.receive_message(2, messages.Call(messages.CallFields(9, "a.b"))))


@t
def dealer_error():
    d = Dealer()
    d.add_session(details(1))
    d.add_session(details(2))
    d.receive_message(1, messages.Register(messages.RegisterFields(7, "a.b")))
    i = d.receive_message(2, messages.Call(messages.CallFields(9, "a.b")))
    e = d.receive_message(1, messages.Error(messages.ErrorFields(68, i.message.request_id, "x.y", ["m"], {"z": 1})))
    return told(e)


@t
def dealer_wrong():
    d = Dealer()
    d.add_session(details(1))
    out = []
    for m in (messages.Yield(messages.YieldFields(5)), messages.Goodbye(messages.GoodbyeFields({}, "r"))):
        try:
            d.receive_message(1, m)
            out.append("accepted")
        except Exception as x:
            out.append(type(x).__name__)
    try:
        d.add_session(details(1))
    except Exception as x:
        out.append(type(x).__name__)
    try:
        d.remove_session(5)
    except Exception as x:
        out.append(type(x).__name__)
    return out


@t
def broker_publish():
    b = Broker()
    for n in (1, 2, 3):
        b.add_session(details(n))
    s1 = b.receive_message(1, messages.Subscribe(messages.SubscribeFields(4, "t")))
    s2 = b.receive_message(2, messages.Subscribe(messages.SubscribeFields(5, "t")))
    p = b.receive_publish(3, messages.Publish(messages.PublishFields(6, "t", [1], {"a": 2}, {"acknowledge": True})))
    return (s1.recipient, s2.recipient, s1.message.request_id, s1.message.subscription_id == s2.message.subscription_id,
            sorted_pair(p.recipients), p.event.args, p.event.kwargs, p.event.subscription_id == s1.message.subscription_id,
            p.ack.recipient, p.ack.message.request_id, p.ack.message.publication_id == p.event.publication_id)


def sorted_pair(xs):
    out = []
    for n in (1, 2, 3):
        if n in xs:
            out.append(n)
    return out, len(xs)


@t
def broker_nobody():
    b = Broker()
    b.add_session(details(3))
    p = b.receive_publish(3, messages.Publish(messages.PublishFields(6, "t", [1])))
    return p is None or (p.recipients, p.ack is None)


@t
def broker_unsubscribe():
    b = Broker()
    for n in (1, 2, 3):
        b.add_session(details(n))
    s1 = b.receive_message(1, messages.Subscribe(messages.SubscribeFields(4, "t")))
    b.receive_message(2, messages.Subscribe(messages.SubscribeFields(5, "t")))
    u = b.receive_message(1, messages.Unsubscribe(messages.UnsubscribeFields(8, s1.message.subscription_id)))
    p = b.receive_publish(3, messages.Publish(messages.PublishFields(6, "t")))
    v = b.receive_message(1, messages.Unsubscribe(messages.UnsubscribeFields(9, s1.message.subscription_id)))
    b.remove_session(2)
    return told(u), sorted_pair(p.recipients), told(v), b.has_subscription("t")


@t
def round_trips():
    out = []
    for m in (messages.Hello(messages.HelloFields("r", {"caller": {}}, "a", "b", ["x"])),
              messages.Call(messages.CallFields(1, "p", None, {"a": 1}, {"o": 2})),
              messages.Error(messages.ErrorFields(48, 3, "u", [1])),
              messages.Interrupt(messages.InterruptFields(1, {"mode": "kill"}))):
        w = m.marshal()
        out.append((w, type(m).parse(w).marshal()))
    return out
