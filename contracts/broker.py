"""B01, B02: the broker.

Pre-state: any heap satisfying the representation invariant `invariant`, which links the topic index, the session
index and the subscriber dicts, with any number of topics, sessions and subscriptions.  Each operation is run once on
arbitrary inputs; proved are: the invariant again, what the operation does to the abstract state (who is attached, which
topics have subscribers, the id of each, who is subscribed), and its answer.  The invariant holds of a new broker, so by
induction over histories this is what B01 and B02 say of every history.
"""
import z3

from wampproto import broker as broker_mod
from wampproto import idgen, messages, types
from spec import wamp
from .common import *
from .messages import arbitrary_fields, build, same_value, empty_dict

K_SUBSCRIBERS = KMap("subscribers", K_INT, K_INT)
K_SUB = KObj(broker_mod.Subscription, {"id": K_INT, "topic": K_STR, "subscribers": K_SUBSCRIBERS})
K_OF = KMap("subscriptions of a session", K_INT, K_SUB)
KINDS = {"subscriptions_by_topic": (K_STR, K_SUB), "subscriptions_by_session": (K_INT, K_OF), "sessions": (K_INT, K_ANY)}
ATTRS = {"subscriptions_by_topic", "subscriptions_by_session", "sessions", "idgen"}


def setup(e):
    e.schemas[broker_mod.Subscription] = K_SUB
    e.loop_invs.append(Leaving())


def forall(vs, body, *pats):
    """Quantification with triggers, where they are usable as such (a goal is negated and needs none)."""
    ok = all(usable(vs, p) for p in pats)
    if not ok:
        return z3.ForAll(vs, body)
    return z3.ForAll(vs, body, patterns=[z3.MultiPattern(*p) if isinstance(p, tuple) else p for p in pats])


def usable(vs, p):
    found = set()
    todo = list(p) if isinstance(p, tuple) else [p]
    while todo:
        t = todo.pop()
        if not z3.is_app(t) or t.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_STORE, z3.Z3_OP_OR, z3.Z3_OP_AND, z3.Z3_OP_EQ,
                                                   z3.Z3_OP_NOT, z3.Z3_OP_CONST_ARRAY, z3.Z3_OP_TRUE, z3.Z3_OP_FALSE):
            return False
        found |= {v.get_id() for v in vs if v.eq(t)}
        todo += t.children()
    return len(found) == len(vs)


class State:
    """The arrays making up a broker's state at one moment."""
    def __init__(self, e, b, pre=False):
        h = (lambda k: e.hpre(*k)) if pre else (lambda k: e.hget(*k))
        self.e = e
        self.th, self.tg = map_of(e, b, "subscriptions_by_topic", KINDS)
        self.sh, self.sg = map_of(e, b, "subscriptions_by_session", KINDS)
        self.ses = map_of(e, b, "sessions", KINDS)[0]
        self.id, self.topic = h(e.attr_key(K_SUB, "id")), h(e.attr_key(K_SUB, "topic"))
        self.subs = h(e.attr_key(K_SUB, "subscribers"))
        self.ih, self.ig = h(e.has_key(K_SUBSCRIBERS)), h(e.get_key(K_SUBSCRIBERS))
        self.oh, self.og = h(e.has_key(K_OF)), h(e.get_key(K_OF))
        g = b.attrs["idgen"]
        if not isinstance(g, HInst) or g.cls is not idgen.SessionScopeIDGenerator or set(g.attrs) != {"id"}:
            raise Unsupported("representation of the id generator")
        self.n = e.int_term(g.attrs["id"])
        if self.n is None:
            raise Unsupported("representation of the id generator")
        self.n = Z(self.n)

    # abstract state
    def attached(self, s):
        return sel(self.sh, s)

    def has(self, t):
        return sel(self.th, t)

    def sid(self, t):
        return sel(self.id, sel(self.tg, t))

    def members(self, t):
        return sel(self.ih, sel(self.subs, sel(self.tg, t)))

    def subscribed(self, s, t):
        return z3.And(self.has(t), sel(self.members(t), s))

    def holds(self, s, i):
        """Session s is subscribed under the id i."""
        return z3.And(self.attached(s), sel(sel(self.oh, sel(self.sg, s)), i))

    def under(self, s, i):
        return sel(sel(self.og, sel(self.sg, s)), i)


def map_of(e, b, name, kinds):
    v = e.resolve(b.attrs[name])
    if not isinstance(v, RootMap) or (v.key, v.val) != kinds[name]:
        raise Unsupported(f"representation of {name}")
    return v.has, v.get


# the code relies on these, but one might do without them: when they fail, that alone is no violation
REDUNDANT = ("attached sessions have an entry in both session tables", "subscriber tables map sessions to themselves")


def invariant(S):
    """The representation invariant: (name, formula) for each conjunct."""
    t, u, s, s2, i = z3.Ints("t u s s2 i")
    a = sel(S.tg, t)
    yield "attached sessions have an entry in both session tables", z3.ForAll([s], sel(S.sh, s) == sel(S.ses, s))
    yield "attached session ids are valid", forall([s], z3.Implies(S.attached(s), z3.And(s >= 1, s <= wamp.MAX_ID)), S.attached(s))
    yield "a subscription is filed under its topic, with an id drawn before", forall([t], z3.Implies(
        S.has(t), z3.And(sel(S.topic, a) == t, S.sid(t) >= 1, S.sid(t) <= S.n)), S.has(t))
    pair = (S.has(t), S.has(u))
    yield "no two topics share a subscription id", forall([t, u], z3.Implies(
        z3.And(S.has(t), S.has(u), S.sid(t) == S.sid(u)), t == u), pair)
    yield "no two topics share a subscriber table", forall([t, u], z3.Implies(
        z3.And(S.has(t), S.has(u), sel(S.subs, sel(S.tg, t)) == sel(S.subs, sel(S.tg, u))), t == u), pair)
    yield "no two sessions share a subscription table", forall([s, s2], z3.Implies(
        z3.And(S.attached(s), S.attached(s2), sel(S.sg, s) == sel(S.sg, s2)), s == s2),
        (S.attached(s), S.attached(s2)))
    yield "a topic in the index has a subscriber", forall([t], z3.Implies(
        S.has(t), S.members(t) != EMPTY(I)), S.has(t))
    yield "every subscriber is attached and holds the subscription under its id", forall([t, s], z3.Implies(
        S.subscribed(s, t), z3.And(S.holds(s, S.sid(t)), S.under(s, S.sid(t)) == a)), (S.has(t), sel(S.members(t), s)))
    yield "subscriber tables map sessions to themselves", forall([t, s], z3.Implies(
        S.subscribed(s, t), sel(sel(S.ig, sel(S.subs, a)), s) == s), (S.has(t), sel(S.members(t), s)))
    x = S.under(s, i)
    yield "every subscription a session holds is in the topic index and lists the session", forall([s, i], z3.Implies(
        S.holds(s, i), z3.And(sel(S.id, x) == i, S.has(sel(S.topic, x)), sel(S.tg, sel(S.topic, x)) == x,
                              sel(sel(S.ih, sel(S.subs, x)), s))), sel(sel(S.oh, sel(S.sg, s)), i))
    yield "ids drawn so far", z3.And(S.n >= 0, S.n <= wamp.MAX_ID)


def allocated_before(S):
    """Objects of the pre-state are not the ones allocated later."""
    t, s, i = z3.Ints("t s i")
    yield forall([t], z3.Implies(S.has(t), z3.And(sel(S.tg, t) <= 0, sel(S.subs, sel(S.tg, t)) <= 0)), S.has(t))
    yield forall([s], z3.Implies(S.attached(s), sel(S.sg, s) <= 0), S.attached(s))
    yield forall([s, i], z3.Implies(S.holds(s, i), S.under(s, i) <= 0), sel(sel(S.oh, sel(S.sg, s)), i))


def new_broker(e):
    b = e.call(broker_mod.Broker, [], {})
    if not isinstance(b, HInst) or not ATTRS <= set(b.attrs):
        raise Unsupported(f"representation of the broker: {sorted(getattr(b, 'attrs', {}))}")
    return b




def as_maps(e, b, fresh):
    """Replace the tables of a new broker by arbitrary ones, or by empty ones of the same kind."""
    for n, (kk, vk) in KINDS.items():
        v = e.resolve(b.attrs[n])
        if not isinstance(v, HDict) or v.entries:
            raise Unsupported(f"representation of {n}: {v!r}")
        get = z3.Const("get_" + n, z3.ArraySort(kk.sort, vk.sort))
        has = z3.Const("pre_" + n, z3.ArraySort(kk.sort, B)) if fresh else EMPTY(kk.sort)
        b.attrs[n] = e.track(RootMap(n, kk, vk, has, get))


def a_broker(e):
    """A broker in any state satisfying the invariant, and that state."""
    b = new_broker(e)
    e.ghost["spare"] = spare(e, b, ATTRS)
    as_maps(e, b, True)
    g = b.attrs["idgen"]
    if not isinstance(g, HInst) or set(g.attrs) != {"id"}:
        raise Unsupported("representation of the id generator")
    g.attrs["id"] = SInt(z3.Int("drawn"))
    S = State(e, b, pre=True)
    for _, f in invariant(S):
        e.assume(f)
    for f in allocated_before(S):
        e.assume(f)
    e.assume(S.n < wamp.MAX_ID)          # fewer than 2**53 ids drawn over the life of the router
    return b, S


def after(e, b, ob):
    """State after an operation; the invariant holds of it."""
    spared(e, b, ATTRS, e.ghost["spare"])
    P = State(e, b)
    for name, f in invariant(P):
        e.prove(f"{ob}: {name}", f, lemma=name in REDUNDANT)
    return P


ALL = ("state", "answers")


def outcome(e, ob, parts, ok, r, accept):
    """Refused exactly when it has to be, with a ValueError."""
    if "answers" not in parts:
        return
    if ok:
        e.cover(ob)
        e.prove(f"{ob}: accepted only when it may be", accept)
    else:
        if accept is not True:
            e.cover(f"{ob} refused")
        e.prove(f"{ob}: a refusal is a ValueError", is_exc(r, ValueError), info=r)
        e.prove(f"{ob}: refused only when it has to be", Not(accept), info=r)


def effect(e, ob, parts, S, P, accept=True, attached=None, subscribed=None):
    """P differs from S only as given, and not at all if the operation has to be refused."""
    if "state" not in parts:
        return
    s, t = z3.Ints("s_any t_any")
    acc = Z(accept)
    e.prove(f"{ob}: who is attached afterwards",
            P.attached(s) == z3.If(acc, attached(s) if attached else S.attached(s), S.attached(s)))
    e.prove(f"{ob}: who is subscribed afterwards",
            P.subscribed(s, t) == z3.If(acc, subscribed(s, t) if subscribed else S.subscribed(s, t), S.subscribed(s, t)))
    e.prove(f"{ob}: the id of a topic that keeps subscribers does not change",
            z3.Implies(z3.And(S.has(t), P.has(t)), P.sid(t) == S.sid(t)))


class Leaving:
    """Loop of remove_session over the subscriptions of the session that leaves, or over all topics."""
    name = "remove_session loop invariant"

    def applies(self, e, it):
        v = it.src
        return isinstance(v, (HeapMap, RootMap)) and e.map_kinds(v)[1] is K_SUB and "leaving" in e.ghost

    def entry(self, e, it):
        b, sid = e.ghost["leaving"]
        kk = e.map_kinds(it.src)[0]
        return State(e, b), sid, kk, e.mload(it.src)[0]

    def formula(self, e, it, S0, done):
        S, sid, kk, mine = S0
        N = State(e, e.ghost["leaving"][0])
        t = z3.Int("t")
        if kk is K_INT:
            gone = lambda t: z3.And(sel(mine, S.sid(t)), done(S.sid(t)))
        else:
            gone = lambda t: z3.And(sel(mine, t), done(t), S.subscribed(sid, t))
        addr = sel(S.subs, sel(S.tg, t))
        left = z3.Store(sel(S.ih, addr), sid, FALSE)
        same_rest = z3.And(N.tg == S.tg, N.ig == S.ig, N.id == S.id, N.topic == S.topic, N.subs == S.subs,
                           N.sh == S.sh, N.sg == S.sg, N.oh == S.oh, N.og == S.og, N.n == S.n, N.ses == S.ses)
        return z3.And(
            same_rest,
            forall([t], z3.Implies(S.has(t), z3.And(
                z3.Implies(gone(t), sel(N.ih, addr) == left),
                z3.Implies(z3.Not(gone(t)), sel(N.ih, addr) == sel(S.ih, addr)))), S.has(t)),
            forall([t], sel(N.th, t) == z3.And(S.has(t), z3.Not(z3.And(gone(t), left == EMPTY(I)))), sel(N.th, t), S.has(t)))


# ---- operations ------------------------------------------------------------------------------------

def initial(p):
    def run(e):
        ob = f"{p} new broker"
        b, b2 = new_broker(e), new_broker(e)
        for n in sorted(ATTRS):
            e.prove(f"{ob}: its {n} is its own", e.resolve(b.attrs[n]) is not e.resolve(b2.attrs[n]))
        e.ghost["spare"] = spare(e, b, ATTRS)
        as_maps(e, b, False)
        P = after(e, b, ob)
        e.cover(ob)
        s, t = z3.Ints("s_any t_any")
        e.prove(f"{ob}: no session is attached", z3.Not(P.attached(s)))
        e.prove(f"{ob}: no topic has subscribers", z3.Not(P.has(t)))
    return run


def details(e, sid):
    return e.call(types.SessionDetails, [sid, sstr("realm"), sstr("authid"), sstr("authrole")], {})


def add_session(p, parts):
    def run(e):
        ob = f"{p} add_session"
        sid = int_in(e, "sid", 1, wamp.MAX_ID)
        d = details(e, sid)
        b, S = a_broker(e)
        accept = z3.Not(S.attached(sid.t))
        ok, r = method(e, b, "add_session", d)
        P = after(e, b, ob)
        outcome(e, ob, parts, ok, r, accept)
        effect(e, ob, parts, S, P, accept, attached=lambda s: z3.Or(S.attached(s), s == sid.t))
    return run


def remove_session(p, parts):
    def run(e):
        ob = f"{p} remove_session"
        sid = int_in(e, "sid", 1, wamp.MAX_ID)
        b, S = a_broker(e)
        e.ghost["leaving"] = (b, sid.t)
        accept = S.attached(sid.t)
        ok, r = method(e, b, "remove_session", sid)
        P = after(e, b, ob)
        outcome(e, ob, parts, ok, r, accept)
        effect(e, ob, parts, S, P, accept, attached=lambda s: z3.And(S.attached(s), s != sid.t),
               subscribed=lambda s, t: z3.And(S.subscribed(s, t), s != sid.t))
    return run


def has_subscription(e):
    ob = "B02 has_subscription"
    topic = sstr("topic")
    b, S = a_broker(e)
    ok, r = method(e, b, "has_subscription", topic)
    P = after(e, b, ob)
    if not ok:
        e.fail(f"{ob}: does not raise", r)
        return
    e.cover(ob)
    s = z3.Int("s_any")
    yes = Z(e.truth(r))
    e.prove(f"{ob}: true when the topic has a subscriber", z3.Implies(S.subscribed(s, topic.t), yes), info=r)
    e.prove(f"{ob}: true only when it has one", z3.Implies(yes, z3.And(S.has(topic.t), S.members(topic.t) != EMPTY(I))), info=r)
    effect(e, ob, ALL, S, P)


def answer(e, ob, r, cls, recipient, fields):
    """r sends a message of cls with these fields to recipient."""
    good = isinstance(r, HInst) and r.cls is types.MessageWithRecipient
    e.prove(f"{ob}: answers with a message and its recipient", good, info=r)
    if not good:
        return None
    got = r.attrs["recipient"]
    e.prove(f"{ob}: the answer goes to the right session", same_value(e, got, recipient), info=(got, recipient))
    m = e.resolve(r.attrs["message"])
    good = isinstance(m, HInst) and m.cls is cls
    e.prove(f"{ob}: the answer is of type {cls.__name__}", good, info=m)
    if not good:
        return None
    for n, v in fields.items():
        got = e.getattr(m, n)
        e.prove(f"{ob}: {n} of the answer", same_value(e, got, v), info=(got, v))
    return m


def untouched(e, ob, before):
    e.prove(f"{ob}: the message is not changed", all(same(o.content(), c) for o, c in before["objs"]) and not e.jmut)


def a_message(e, name):
    m = wamp.BY_NAME[name]
    return build(e, m, arbitrary_fields(e, m))


def subscribe(p, parts):
    def run(e):
        ob = f"{p} SUBSCRIBE"
        msg = a_message(e, "Subscribe")
        before = e.snapshot()
        sid, topic = int_in(e, "sid", 1, wamp.MAX_ID), e.getattr(msg, "topic")
        b, S = a_broker(e)
        accept = S.attached(sid.t)
        ok, r = method(e, b, "receive_message", sid, msg)
        P = after(e, b, ob)
        outcome(e, ob, parts, ok, r, accept)
        effect(e, ob, parts, S, P, accept, subscribed=lambda s, t: z3.Or(S.subscribed(s, t), z3.And(s == sid.t, t == topic.t)))
        if "answers" in parts:
            untouched(e, ob, before)
            if ok:
                answer(e, ob, r, messages.Subscribed, sid,
                       {"request_id": e.getattr(msg, "request_id"), "subscription_id": SInt(P.sid(topic.t))})
    return run


def unsubscribe(p, parts):
    def run(e):
        ob = f"{p} UNSUBSCRIBE"
        msg = a_message(e, "Unsubscribe")
        before = e.snapshot()
        sid, i = int_in(e, "sid", 1, wamp.MAX_ID), e.getattr(msg, "subscription_id").t
        b, S = a_broker(e)
        accept = S.holds(sid.t, i)
        ok, r = method(e, b, "receive_message", sid, msg)
        P = after(e, b, ob)
        outcome(e, ob, parts, ok, r, accept)
        effect(e, ob, parts, S, P, accept,
               subscribed=lambda s, t: z3.And(S.subscribed(s, t), z3.Not(z3.And(s == sid.t, S.sid(t) == i))))
        if "answers" in parts:
            untouched(e, ob, before)
            if ok:
                answer(e, ob, r, messages.Unsubscribed, sid, {"request_id": e.getattr(msg, "request_id")})
    return run


def unsupported(p, parts, m):
    def run(e):
        ob = f"{p} {m.name}"
        msg = build(e, m, arbitrary_fields(e, m))
        before = e.snapshot()
        sid = int_in(e, "sid", 1, wamp.MAX_ID)
        b, S = a_broker(e)
        ok, r = method(e, b, "receive_message", sid, msg)
        P = after(e, b, ob)
        outcome(e, ob, parts, ok, r, False)
        effect(e, ob, parts, S, P)
        if "answers" in parts:
            untouched(e, ob, before)
    return run


def membership(e, ob, v, want):
    """v is a list with each session id with want(id) once and no other."""
    v = e.resolve(v)
    e.prove(f"{ob}: the recipients are a list", e.pytype(v) is list, info=v)
    if not isinstance(v, HList):
        raise Unsupported(f"recipients {v!r}")
    s = z3.Int("s_any")
    segs = [x for x in v.items if isinstance(x, SymIter)]
    if not segs:
        ts = [e.int_term(x) for x in v.items]
        e.prove(f"{ob}: recipients are session ids", all(t is not None for t in ts))
        e.prove(f"{ob}: exactly the subscribers", Z(Or(*[s == t for t in ts])) == want(s), info=v)
        e.prove(f"{ob}: each once", z3.Distinct(*[Z(t) for t in ts]) if len(ts) > 1 else True, info=v)
        return
    if len(v.items) != 1:
        raise Unsupported("recipients in several parts")
    g = segs[0]
    x = g.x
    y = z3.Int("y_any")
    t = e.int_term(g.elem)
    if t is None:
        raise Unsupported(f"recipients {g.elem!r}")
    dom = lambda u: z3.substitute(Z(g.dom), (x, u))
    el = lambda u: z3.substitute(Z(t), (x, u))
    e.prove(f"{ob}: every recipient is a subscriber", z3.Implies(dom(y), want(el(y))))
    z = z3.Const("z_any", x.sort())
    y2 = z3.Const("y2_any", x.sort())
    e.prove(f"{ob}: no recipient twice", z3.Implies(z3.And(dom(y2), dom(z), el(y2) == el(z)), y2 == z))
    if z3.eq(Z(t), x):
        e.prove(f"{ob}: every subscriber is a recipient", z3.Implies(want(y), dom(y)))
    else:
        # the element of a subscriber table under a session is that session
        e.prove(f"{ob}: every subscriber is a recipient", z3.Implies(want(y), z3.And(dom(y), el(y) == y)))


def asked(e, v, name):
    """Truth of an option that is a boolean if there."""
    v = e.resolve(v)
    if isinstance(v, HDict):
        return FALSE
    k = Val.str(lit(name))
    e.assume(z3.Implies(dhas(v.r, k), Val.is_bool(dget(v.r, k))))
    return z3.And(dhas(v.r, k), Val.bv(dget(v.r, k)))


def publish(e):
    ob = "B01 PUBLISH"
    msg = a_message(e, "Publish")
    before = e.snapshot()
    sid, topic = int_in(e, "sid", 1, wamp.MAX_ID), e.getattr(msg, "topic").t
    ack = asked(e, e.getattr(msg, "options"), "acknowledge")
    b, S = a_broker(e)
    ok, r = method(e, b, "receive_publish", sid, msg)
    P = after(e, b, ob)
    outcome(e, ob, ALL, ok, r, S.attached(sid.t))
    effect(e, ob, ALL, S, P)
    untouched(e, ob, before)
    if not ok:
        return
    good = isinstance(r, HInst) and r.cls is types.Publication
    e.prove(f"{ob}: the result is a publication", good, info=r)
    if not good:
        return
    membership(e, ob, r.attrs["recipients"], lambda s: S.subscribed(s, topic))
    ev, ak = e.resolve(r.attrs["event"]), e.resolve(r.attrs["ack"])
    pub = None
    if ev is None:
        e.cover(f"{ob} without subscriber")
        e.prove(f"{ob}: no event only when there is no subscriber", z3.Not(S.has(topic)))
    else:
        e.cover(f"{ob} with subscribers")
        e.prove(f"{ob}: an event only when there is a subscriber", S.has(topic))
        e.prove(f"{ob}: it is an EVENT", isinstance(ev, HInst) and ev.cls is messages.Event, info=ev)
        if not (isinstance(ev, HInst) and ev.cls is messages.Event):
            return
        for n, v in (("subscription_id", SInt(S.sid(topic))), ("args", e.getattr(msg, "args")), ("kwargs", e.getattr(msg, "kwargs"))):
            e.prove(f"{ob}: {n} of the event", same_value(e, e.getattr(ev, n), v), info=(e.getattr(ev, n), v))
        pub = e.getattr(ev, "publication_id")
        t = e.int_term(pub)
        e.prove(f"{ob}: the publication id is an id drawn for it", t is not None and z3.And(t > S.n, t <= P.n), info=pub)
    e.prove(f"{ob}: acknowledged exactly when asked for", ack == (ak is not None))
    if ak is not None:
        e.cover(f"{ob} acknowledged")
        a = answer(e, ob, ak, messages.Published, sid, {"request_id": e.getattr(msg, "request_id")})
        if a is not None and isinstance(a, HInst) and a.cls is messages.Published:
            got = e.getattr(a, "publication_id")
            if pub is not None:
                e.prove(f"{ob}: acknowledged with the publication id of the event", same_value(e, got, pub), info=(got, pub))
            t = e.int_term(got)
            e.prove(f"{ob}: the acknowledged publication id is a fresh one", t is not None and z3.And(t > S.n, t <= P.n), info=got)


def T(name, fn, **kw):
    return Task(name, fn, setup, quantified=True, **kw)


def both(ob):
    return (ob, f"{ob} refused")


def state_tasks(p, parts):
    n = both if "answers" in parts else lambda ob: ()
    return [T(f"{p} new broker", initial(p), needs=(f"{p} new broker",)),
            T(f"{p} add_session", add_session(p, parts), needs=n(f"{p} add_session")),
            T(f"{p} remove_session", remove_session(p, parts), weight=5, needs=n(f"{p} remove_session")),
            T(f"{p} SUBSCRIBE", subscribe(p, parts), weight=3, needs=n(f"{p} SUBSCRIBE")),
            T(f"{p} UNSUBSCRIBE", unsubscribe(p, parts), weight=3, needs=n(f"{p} UNSUBSCRIBE"))] + [
        T(f"{p} {m.name}", unsupported(p, parts, m)) for m in wamp.MESSAGES if m.name not in ("Subscribe", "Unsubscribe")]


def tasks_b02():
    return state_tasks("B02", ALL) + [T("B02 has_subscription", has_subscription), T("B01 PUBLISH", publish)]


def tasks_b01():
    """B01 speaks of the current subscribers, so it needs what every operation does to them, but not how it is answered."""
    return [T("B01 PUBLISH", publish, weight=3, needs=both("B01 PUBLISH") + (
        "B01 PUBLISH with subscribers", "B01 PUBLISH without subscriber", "B01 PUBLISH acknowledged"))] + state_tasks("B01", ("state",))
