"""B01, B02, D01-D04 on CPython: histories of brokers and dealers against reference models.

Every property reports only what it speaks of; where the code breaks another property's rule, the history ends quietly,
because what should follow is then no longer defined.
"""
import copy

from wampproto import messages, types
from wampproto.broker import Broker
from wampproto.dealer import Dealer
from spec import wamp
from .base import describe, outcome, sizes, strict_eq
from .messages import gen_fields, make, read, reported

CALL, REGISTER, INVOCATION = 48, 64, 68


class Wrong(Exception):
    def __init__(self, props, text):
        self.props, self.text = props, text


def wrong(props, text):
    raise Wrong(props, text)


def flag(d, name):
    return bool((d or {}).get(name, False))


def is_message(r, cls):
    return isinstance(r, types.MessageWithRecipient) and type(r.message) is cls


def fields_of(cls, msg):
    return read(wamp.BY_NAME[cls.__name__], msg)


def pools(g):
    k = g.r.random()
    if k < 0.5:
        sids = [1, 2, 3]
    elif k < 0.75:
        sids = [1, 2, 3, 4, 5, 6]
    else:
        sids = [g.id() for _ in range(g.pick([2, 4, 8]))]
    names = g.pick([["a", "b"], ["a"], ["io.xconn.a", "io.xconn.b", "io.xconn.a.b", ""], [g.str() for _ in range(4)], ["a", "b", "c", "A"]])
    if g.chance(0.15):
        s = g.pick(["io.xconn.Topic", "a", g.str()])
        names = [s] + [g.near(s) for _ in range(4)]
    reqs = g.pick([[1], [1, 2], [1, 2, 3], [g.id(), g.id(), 1], [1, 2 ** 53]])
    return sids, names, reqs


def some(xs, n):
    """The first and the last of a collection."""
    xs = list(xs)
    return xs if len(xs) <= n else xs[:n // 2] + xs[-(n // 2):]


SUBSCRIBE_OPTIONS = ("acknowledge", "match", "get_retained")
PUBLISH_OPTIONS = ("acknowledge", "exclude_me", "eligible", "exclude", "disclose_me", "retain", "progress")
REGISTER_OPTIONS = ("receive_progress", "progress", "acknowledge", "match", "invoke", "disclose_caller", "concurrency", "force_reregister")
CALL_OPTIONS = ("receive_progress", "progress", "acknowledge", "timeout", "disclose_me", "runmode", "rkey")
FLAGS = ("acknowledge", "progress", "receive_progress")      # the options this router looks at


def option(g, name, sids):
    """A value WAMP knows for an option, or a flag."""
    if name in FLAGS or g.chance(0.4):
        return g.chance(0.65)
    if name == "match":
        return g.pick(["exact", "prefix", "wildcard"])
    if name == "invoke":
        return g.pick(["single", "roundrobin", "random", "first", "last"])
    if name in ("eligible", "exclude"):
        return g.r.sample(sids, g.r.randrange(len(sids) + 1))
    if name in ("timeout", "concurrency"):
        return g.pick([0, 1, 1000, -1])
    return g.pick([True, False, None, "partition", 1, {}])


class History:
    history = True

    def options(self, g, names, sids):
        if g.chance(0.3):
            return None
        return {n: option(g, n, sids) for n in names if g.chance(0.5 if n in FLAGS else 0.15)}

    def run(self, case):
        kept = []
        try:
            self.play(case, kept)
            for what, get, want in kept:
                if not strict_eq(get(), want):
                    return f"{what} changed afterwards: {get()!r} instead of {want!r}"
        except Wrong as w:
            return w.text if self.prop in w.props else None
        return None


def send(fn, name, f, kept, where, props, *args):
    """Call fn with the message; it must come back unchanged."""
    m = wamp.BY_NAME[name]
    msg = make(m, copy.deepcopy(f))
    before = copy.deepcopy(read(m, msg))
    k, r = outcome(fn, *args, msg)
    if not strict_eq(read(m, msg), before):
        wrong(props, f"{where} changes the message")
    return k, r


# ---- broker ------------------------------------------------------------------------------------------

class BrokerModel:
    def __init__(self):
        self.attached, self.subs, self.ids, self.pubs = set(), {}, {}, set()
        self.last = {}               # topic -> id it had last


class Brokers(History):
    def cases(self, g):
        yield from self.systematic(g)
        while True:
            if g.chance(0.03):
                yield self.crowd(g) if g.chance(0.6) else self.heavy(g, g.pick(sizes()))
                continue
            sids, topics, reqs = pools(g)
            steps = []
            if g.chance(0.7):
                steps += [("add", 0, s) for s in sids]
            for _ in range(g.pick([4, 8, 15, 30, 60])):
                steps.append(self.step(g, sids, topics, reqs))
            yield (steps,)

    def step(self, g, sids, topics, reqs):
        b = 0 if g.chance(0.9) else 1
        s, t, r = g.pick(sids), g.pick(topics), g.pick(reqs)
        k = g.r.random()
        if k < 0.08:
            return ("add", b, s)
        if k < 0.16:
            return ("remove", b, s)
        if k < 0.45:
            return ("sub", b, s, r, t, self.options(g, SUBSCRIBE_OPTIONS, sids))
        if k < 0.64:
            return ("unsub", b, s, r, t if g.chance(0.85) else g.pick([1, 2, 3, 4, 5, g.id()]))
        if k < 0.95:
            f = gen_fields(g, wamp.BY_NAME["Publish"])
            f["request_id"], f["topic"] = r, t
            f["options"] = self.options(g, PUBLISH_OPTIONS, sids)
            return ("pub", b, s, f)
        m = g.pick([m for m in wamp.MESSAGES if m.name not in ("Subscribe", "Unsubscribe")])
        f = gen_fields(g, m)
        if "topic" in f and g.chance(0.7):
            f["topic"] = t
        return ("other", b, s, m.name, f)

    def crowd(self, g):
        n = g.pick([10, 17, 33, 65, 130, 300])
        steps = [("add", 0, s) for s in range(1, n + 1)]
        steps += [("sub", 0, s, s, g.pick(["a", "b"]) if g.chance(0.2) else "a", None) for s in range(1, n + 1)]
        for _ in range(20):
            steps.append(self.step(g, list(range(1, n + 1)), ["a", "b"], [1, 2]))
        for t in ("a", "b"):
            steps.append(("pub", 0, g.pick(range(1, n + 1)), self.publication(t)))
        return (steps,)

    def heavy(self, g, n):
        """One session with many subscriptions, or one topic with many subscribers."""
        k = g.r.randrange(3)
        if k == 0:
            steps = [("add", 0, s) for s in (1, 2)] + [("sub", 0, 1, i + 1, f"t{i}", None) for i in range(n)]
            steps += [("sub", 0, 2, 1, f"t{g.r.randrange(n)}", None) for _ in range(3)]
            steps += [("unsub", 0, 1, 1, f"t{g.r.randrange(n)}") for _ in range(g.pick([0, 3]))] + [("remove", 0, 1)] * g.chance(0.8)
            return (steps + [("pub", 0, 2, self.publication(f"t{i}")) for i in {0, 1, n // 2, n - 2, n - 1}],)
        steps = [("add", 0, s) for s in range(1, n + 1)] + [("sub", 0, s, 1, "a", None) for s in range(1, n + 1)]
        if k == 1:
            gone = g.r.sample(range(1, n + 1), g.pick([1, n // 2, n - 1, n]))
            steps += [g.pick([("remove", 0, s), ("unsub", 0, s, 2, "a")]) for s in gone] + [("add", 0, n + 1)]
            return (steps + [("pub", 0, n + 1, self.publication("a")), ("sub", 0, n + 1, 3, "a", None), ("pub", 0, n + 1, self.publication("a"))],)
        return (steps + [("pub", 0, g.pick([1, n]), self.publication("a", request_id=i + 1)) for i in range(n)],)

    def publication(self, t, **kw):
        return {"request_id": 1, "options": {"acknowledge": True}, "topic": t, "args": [1], "kwargs": None, **kw}

    def systematic(self, g):
        add = [("add", 0, 1), ("add", 0, 2), ("add", 0, 3)]
        subs = [("sub", 0, 1, 1, "a", None), ("sub", 0, 2, 1, "a", None), ("sub", 0, 1, 2, "b", None), ("sub", 0, 3, 2, "b", None)]
        ends = [("unsub", 0, 1, 9, "a"), ("unsub", 0, 2, 9, "a"), ("unsub", 0, 1, 9, "b"), ("remove", 0, 1), ("remove", 0, 2),
                ("remove", 0, 3)]
        pubs = [("pub", 0, s, self.publication(t)) for s in (1, 2, 3) for t in ("a", "b")]
        for n in range(len(subs) + 1):
            for e1 in ends:
                for e2 in ends:
                    for again in ([], [("add", 0, 1)], [("add", 0, 1), ("sub", 0, 1, 5, "a", None)], [("sub", 0, 2, 5, "b", None)]):
                        yield (add + subs[:n] + [e1, e2] + again + pubs,)
        for n in sizes():
            for _ in range(2):
                yield self.heavy(g, n)
        for m in wamp.MESSAGES:
            yield (add + subs + [("other", 0, 1, m.name, gen_fields(g, m))] + pubs,)

    def play(self, case, kept):
        brokers, models = [Broker(), Broker()], [BrokerModel(), BrokerModel()]
        topics = {st[4] for st in case[0] if st[0] == "sub"} | {st[3]["topic"] for st in case[0] if st[0] == "pub"}
        for n, st in enumerate(case[0]):
            b, M = brokers[st[1]], models[st[1]]
            where = f"step {n + 1}, {st[0]} by session {st[2]} {st[3:]!r}:"
            getattr(self, "do_" + st[0])(b, M, st, where, kept)
            if "B02" == self.prop:
                for bb, MM in zip(brokers, models):
                    self.look(bb, MM, topics, where)

    def look(self, b, M, topics, where):
        for t in topics:
            k, r = outcome(b.has_subscription, t)
            if k == "raise":
                wrong("B02", f"{where} afterwards has_subscription({t!r}) raises {describe(r)}")
            if bool(r) != bool(M.subs.get(t)):
                wrong("B02", f"{where} afterwards has_subscription({t!r}) is {r}, subscribers should be {sorted(M.subs.get(t, []))}")

    def refused(self, k, r, must, props, where):
        """True when the operation was rightly refused."""
        if k == "raise":
            if not must:
                wrong(props, f"{where} raises {describe(r)}")
            if not isinstance(r, ValueError):
                wrong(props, f"{where} raises {describe(r)} instead of ValueError")
            return True
        if must:
            wrong(props, f"{where} is not refused")
        return False

    def do_add(self, b, M, st, where, kept):
        s = st[2]
        k, r = outcome(b.add_session, types.SessionDetails(s, "realm", "id", "role"))
        if not self.refused(k, r, s in M.attached, ["B02"], where):
            M.attached.add(s)

    def do_remove(self, b, M, st, where, kept):
        s = st[2]
        k, r = outcome(b.remove_session, s)
        if not self.refused(k, r, s not in M.attached, ["B02"], where):
            M.attached.discard(s)
            for t in list(M.subs):
                self.leave(M, s, t)

    def leave(self, M, s, t):
        M.subs[t].discard(s)
        if not M.subs[t]:
            del M.subs[t]
            M.ids.pop(t, None)

    def do_sub(self, b, M, st, where, kept):
        _, _, s, req, t, opts = st
        k, r = send(b.receive_message, "Subscribe", {"request_id": req, "options": opts, "topic": t}, kept, where, ["B02"], s)
        if self.refused(k, r, s not in M.attached, ["B02"], where):
            return
        if not is_message(r, messages.Subscribed):
            wrong(["B02"], f"{where} answers {r!r}")
        got = fields_of(messages.Subscribed, r.message)
        if r.recipient != s:
            wrong(["B02"], f"{where} is answered to session {r.recipient}")
        if got["request_id"] != req and self.prop == "B02":
            wrong(["B02"], f"{where} is answered with {got!r}")
        i = got["subscription_id"]
        if t in M.subs and M.ids[t] != i:
            wrong(["B02"], f"{where} gets subscription id {i}, other subscribers of the topic have {M.ids[t]}")
        if i in [j for u, j in M.ids.items() if u != t]:
            wrong(["B02"], f"{where} gets subscription id {i}, which another topic has")
        M.subs.setdefault(t, set()).add(s)
        M.ids[t] = M.last[t] = i

    def do_unsub(self, b, M, st, where, kept):
        _, _, s, req, ref = st
        i = M.ids.get(ref, M.last.get(ref, 77)) if isinstance(ref, str) else ref
        t = next((u for u in M.subs if M.ids[u] == i), None)
        k, r = send(b.receive_message, "Unsubscribe", {"request_id": req, "subscription_id": i}, kept, where, ["B02"], s)
        must = s not in M.attached or t is None or s not in M.subs[t]
        if self.refused(k, r, must, ["B02"], where):
            return
        if not is_message(r, messages.Unsubscribed) or r.recipient != s:
            wrong(["B02"], f"{where} answers {r!r}")
        if r.message.request_id != req and self.prop == "B02":
            wrong(["B02"], f"{where} is answered with request id {r.message.request_id}")
        self.leave(M, s, t)

    def do_other(self, b, M, st, where, kept):
        _, _, s, name, f = st
        if name in ("Subscribe", "Unsubscribe"):
            return
        k, r = send(b.receive_message, name, f, kept, where, ["B02"], s)
        self.refused(k, r, True, ["B02"], where)

    def do_pub(self, b, M, st, where, kept):
        _, _, s, f = st
        t = f["topic"]
        k, r = send(b.receive_publish, "Publish", f, kept, where, ["B01"], s)
        if self.refused(k, r, s not in M.attached, ["B01"], where):
            return
        if not isinstance(r, types.Publication) or not isinstance(r.recipients, list):
            wrong(["B01"], f"{where} gives {r!r}")
        want = M.subs.get(t, set())
        if sorted(r.recipients, key=repr) != sorted(want, key=repr):
            wrong(["B01", "B02"], f"{where} reaches {r.recipients!r}, subscribed are {sorted(want)}")
        pub = None
        if not want:
            if r.event is not None:
                wrong(["B01"], f"{where} makes an event without subscribers")
        else:
            if type(r.event) is not messages.Event:
                wrong(["B01"], f"{where} gives the event {r.event!r}")
            e = fields_of(messages.Event, r.event)
            if e["subscription_id"] != M.ids[t]:
                wrong(["B01"], f"{where} the event carries subscription id {e['subscription_id']} instead of {M.ids[t]}")
            if not strict_eq(e["args"], f["args"]) or not strict_eq(e["kwargs"], f["kwargs"]):
                wrong(["B01"], f"{where} the event carries args {e['args']!r} and kwargs {e['kwargs']!r}")
            pub = e["publication_id"]
            if type(pub) is not int:
                wrong(["B01"], f"{where} the event carries publication id {pub!r}")
            kept.append((f"{where} its event", lambda m=r.event: fields_of(messages.Event, m), copy.deepcopy(e)))
        if (r.ack is not None) != flag(f["options"], "acknowledge"):
            wrong(["B01"], f"{where} the acknowledgement is {r.ack!r}")
        if r.ack is not None:
            if not is_message(r.ack, messages.Published) or r.ack.recipient != s or r.ack.message.request_id != f["request_id"]:
                wrong(["B01"], f"{where} the acknowledgement is {r.ack!r} {getattr(r.ack.message, 'request_id', None)}")
            if pub is not None and r.ack.message.publication_id != pub:
                wrong(["B01"], f"{where} acknowledged with publication id {r.ack.message.publication_id} instead of {pub}")
            pub = r.ack.message.publication_id
        if pub is not None:
            if type(pub) is not int or not 1 <= pub <= wamp.MAX_ID or pub in M.pubs:
                wrong(["B01"], f"{where} the publication id {pub!r} is not a fresh id")
            M.pubs.add(pub)
        # the publication is the caller's now
        r.recipients.append(10 ** 9)


class B01(Brokers):
    prop = "B01"


class B02(Brokers):
    prop = "B02"


# ---- dealer ------------------------------------------------------------------------------------------

class DealerModel:
    def __init__(self):
        self.attached = set()
        self.owner, self.rid, self.last = {}, {}, {}       # procedure -> session, registration id, last id
        self.pending = {}                                  # invocation id -> [caller, callee, request, {possible progress flags}]
        self.byreq = {}                                    # (caller, request) -> invocation id
        self.made = []                                     # invocation ids in the order they were made
        self.clean = True                                  # every message so far came from an attached session


class Dealers(History):
    def cases(self, g):
        yield from self.systematic(g)
        while True:
            if g.chance(0.03):
                yield self.crowd(g) if g.chance(0.6) else self.heavy(g, g.pick(sizes()))
                continue
            sids, procs, reqs = pools(g)
            steps = []
            if g.chance(0.8):
                steps += [("add", 0, s) for s in sids]
            if g.chance(0.7):
                steps += [("reg", 0, g.pick(sids), g.pick(reqs), p, None) for p in procs]
            only_attached = g.chance(0.5)
            for _ in range(g.pick([4, 8, 15, 30, 60])):
                steps.append(self.step(g, sids, procs, reqs))
            yield (only_attached, steps)

    def opaque(self, g):
        if g.chance(0.7):
            return {}
        return {k: v for k, v in (("serializer", g.pick([0, 1, 2, 3, g.int()])), ("payload", g.pick([b"", g.bytes()])), ("binary", g.chance(0.5)))
                if g.chance(0.7)}

    def handed_on(self, props, m, f, where):
        """The opaque payload of a CALL or YIELD goes on with it."""
        got = (m.payload, m.payload_serializer, m.payload_is_binary())
        want = (f.get("payload"), f.get("serializer"), f.get("binary", False))
        if not strict_eq(got, want):
            wrong(props, f"{where} carries payload, serializer id and binary flag {got!r} instead of {want!r}")

    def step(self, g, sids, procs, reqs):
        d = 0 if g.chance(0.93) else 1
        s, p, r = g.pick(sids), g.pick(procs), g.pick(reqs)
        k = g.r.random()
        if k < 0.06:
            return ("add", d, s)
        if k < 0.12:
            return ("remove", d, s)
        if k < 0.22:
            return ("reg", d, s, r, p, self.options(g, REGISTER_OPTIONS, sids))
        if k < 0.30:
            return ("unreg", d, s if g.chance(0.3) else ("owner", p), r, p if g.chance(0.85) else g.pick([1, 2, 3, g.id()]))
        if k < 0.58:
            f = gen_fields(g, wamp.BY_NAME["Call"])
            f["request_id"], f["procedure"], f["options"] = r, p, self.options(g, CALL_OPTIONS, sids)
            return ("call", d, s, {**f, **self.opaque(g)})
        if k < 0.77:
            f = gen_fields(g, wamp.BY_NAME["Yield"])
            f["options"] = self.options(g, CALL_OPTIONS, sids)
            return ("yield", d, self.who(g, s), self.ref(g), {**f, **self.opaque(g)})
        if k < 0.95:
            f = gen_fields(g, wamp.BY_NAME["Error"])
            f["message_type"] = INVOCATION if g.chance(0.85) else g.pick([CALL, REGISTER, 66, 32, 16, 0, 1, 70])
            return ("error", d, self.who(g, s), self.ref(g), f)
        m = g.pick([m for m in wamp.MESSAGES if m.name not in ("Register", "Unregister", "Call", "Yield", "Error")])
        f = gen_fields(g, m)
        if "request_id" in f and g.chance(0.7):
            f["request_id"] = r
        return ("other", d, s, m.name, f)

    def who(self, g, s):
        """Who answers: the callee, its caller or some session."""
        k = g.r.random()
        return "callee" if k < 0.75 else "caller" if k < 0.85 else s

    def ref(self, g):
        """Which invocation: counted from the last one made, or a raw id."""
        k = g.r.random()
        return ("live", g.r.randrange(4)) if k < 0.7 else ("made", g.r.randrange(6)) if k < 0.9 else ("raw", g.pick([1, 2, 3, 4, 5, g.id()]))

    def crowd(self, g):
        n = g.pick([10, 17, 33, 65, 130, 300])
        sids = list(range(1, g.pick([4, n]) + 1))
        steps = [("add", 0, s) for s in sids]
        steps += [("reg", 0, g.pick(sids), 1, f"p{i}", None) for i in range(g.pick([3, n]))]
        steps += [("call", 0, g.pick(sids), self.a_call(i + 1, f"p{i % 3}")) for i in range(n)]
        for _ in range(40):
            steps.append(self.step(g, sids, ["p0", "p1", "p2"], list(range(1, n + 1))))
        return (True, steps)

    def heavy(self, g, n):
        """One session with many registrations, or with many calls in flight as their caller or callee."""
        k = g.r.randrange(3)
        y = {"request_id": 1, "options": None, "args": ["y"], "kwargs": None}
        steps = [("add", 0, s) for s in (1, 2, 3)]
        if k == 0:
            steps += [("reg", 0, 1, i + 1, f"p{i}", None) for i in range(n)] + [("reg", 0, 2, 1, "q", None)]
            steps += [("call", 0, 3, self.a_call(i, f"p{j}")) for i, j in enumerate({0, n // 2, n - 1})]
            steps += [("unreg", 0, 1, 1, f"p{g.r.randrange(n)}") for _ in range(g.pick([0, 3]))]
        else:
            steps += [("reg", 0, 1, 1, "p0", None), ("reg", 0, 2, 1, "q", None)]
            steps += [("call", 0, 3, self.a_call(i + 1, "p0", options={"receive_progress": True} if k == 2 else None)) for i in range(n)]
            steps += [("yield", 0, "callee", ("made", i), y) for i in g.r.sample(range(n), g.pick([0, 1, min(n, 50)]))]
            steps += [("yield", 0, "callee", ("made", 0), {**y, "options": {"progress": True}}) for _ in range(g.pick([0, n]) if k == 2 else 0)]
        steps += [("remove", 0, g.pick([1, 3]))] * g.chance(0.8)
        steps += [("yield", 0, "callee", ("made", i), y) for i in {0, 1, n // 2, n - 1}]
        steps += [("call", 0, 3, self.a_call(n + 1 + i, p)) for i, p in enumerate(["p0", f"p{n - 1}", f"p{n // 2}", "q"])]
        return (True, steps)

    def a_call(self, req, p, **kw):
        return {"request_id": req, "options": None, "procedure": p, "args": [req], "kwargs": None, **kw}

    def systematic(self, g):
        add = [("add", 0, s) for s in (1, 2, 3)]
        regs = [("reg", 0, 1, 1, "a", None), ("reg", 0, 2, 1, "b", None), ("reg", 0, 1, 2, "c", None)]
        prog = {"receive_progress": True}
        calls = [("call", 0, 3, self.a_call(1, "a")), ("call", 0, 2, self.a_call(1, "a", options=prog)), ("call", 0, 3, self.a_call(2, "b")),
                 ("call", 0, 1, self.a_call(1, "c")), ("call", 0, 3, self.a_call(1, "b"))]
        y = {"request_id": 1, "options": None, "args": ["y"], "kwargs": None}
        er = {"message_type": 68, "request_id": 1, "details": {"x": 1}, "uri": "e.e", "args": ["e"], "kwargs": {"k": 1}}
        ans = [("yield", 0, "callee", ("made", i), y) for i in range(4)] + [("error", 0, "callee", ("made", i), er) for i in range(4)] + [
            ("yield", 0, "caller", ("made", 0), y), ("error", 0, 3, ("made", 0), er), ("yield", 0, 2, ("made", 0), y),
            ("yield", 0, "callee", ("made", 1), {**y, "options": {"progress": True}})]
        ends = [("remove", 0, 1), ("remove", 0, 2), ("remove", 0, 3), ("unreg", 0, 1, 5, "a"), ("unreg", 0, 2, 5, "a"),
                ("unreg", 0, 2, 5, "b")]
        again = [[], [("add", 0, 1), ("reg", 0, 1, 7, "a", None)], [("add", 0, 3), ("call", 0, 3, self.a_call(1, "b"))],
                 [("reg", 0, 2, 7, "a", None), ("call", 0, 3, self.a_call(1, "a"))]]
        for e1 in ends:
            for ag in again:
                for a1 in ans:
                    yield (True, add + regs + calls + [e1] + ag + [a1] + calls + ans)
                    yield (False, add + regs + calls[:2] + [a1, e1] + ag + calls + ans + calls)
        for n in sizes():
            for _ in range(2):
                yield self.heavy(g, n)
        for m in wamp.MESSAGES:
            yield (False, add + regs + calls + [("other", 0, 1, m.name, gen_fields(g, m))] + ans)

    def play(self, case, kept):
        dealers, models = [Dealer(), Dealer()], [DealerModel(), DealerModel()]
        procs = {st[4] for st in case[1] if st[0] == "reg"} | {st[3]["procedure"] for st in case[1] if st[0] == "call"}
        for n, st in enumerate(case[1]):
            d, M = dealers[st[1]], models[st[1]]
            where = f"step {n + 1}, {st[0]} by session {st[2]} {st[3:]!r}:"
            s = self.sender(M, st)
            if st[0] not in ("add", "remove"):
                if s not in M.attached:
                    if case[0]:
                        continue
                    M.clean = False
                where = f"step {n + 1}, {st[0]} by session {s} {st[3:]!r}:"
            getattr(self, "do_" + st[0])(d, M, st, s, where, kept, procs)
            if self.prop == "D01":
                for dd, MM in zip(dealers, models):
                    for p in procs:
                        k, r = outcome(dd.has_registration, p)
                        if k == "raise" or bool(r) != (p in MM.owner):
                            wrong(["D01"], f"{where} afterwards has_registration({p!r}) gives {describe(r) if k == 'raise' else r}, "
                                           f"the owner should be {MM.owner.get(p)}")

    def invocation(self, M, ref):
        k, i = ref
        if k == "raw":
            return i
        pool = M.made if k == "made" else list(M.pending)
        return pool[i % len(pool)] if pool else i + 1

    def sender(self, M, st):
        s = st[2]
        if isinstance(s, tuple):
            return M.owner.get(s[1], 1)
        if s in ("callee", "caller"):
            p = M.pending.get(self.invocation(M, st[3]))
            return (p[1] if s == "callee" else p[0]) if p else 1
        return s

    refused = Brokers.refused

    def addressed(self, M, r, where):
        if M.clean and isinstance(r, types.MessageWithRecipient) and r.recipient not in M.attached:
            wrong(["D04"], f"{where} is addressed to session {r.recipient}, which is not attached")

    def do_add(self, d, M, st, s, where, kept, procs):
        k, r = outcome(d.add_session, types.SessionDetails(s, "realm", "id", "role"))
        if not self.refused(k, r, s in M.attached, ["D01"] if s in M.attached else ["D01", "D04"], where):
            M.attached.add(s)

    def do_remove(self, d, M, st, s, where, kept, procs):
        before = self.observe(d, M, procs, s) if self.prop == "D04" else None
        k, r = outcome(d.remove_session, s)
        if self.refused(k, r, s not in M.attached, ["D04"], where):
            if before is not None:
                now = self.observe(d, M, procs, s)
                if now != before:
                    wrong(["D04"], f"{where} is refused and changes the dealer: {before} before, {now} afterwards")
            return
        if before is not None:
            self.check_removed(d, M, s, before, procs, where)
        M.attached.discard(s)
        for p in [p for p, o in M.owner.items() if o == s]:
            del M.owner[p], M.rid[p]
        for i in [i for i, c in M.pending.items() if s in c[:2]]:
            self.finish(M, i)

    # -- D04: what a dealer can be seen to hold, on a copy of it

    def observe(self, d, M, procs, leaving):
        """(registered procedures, who may unregister what, invocations that can be answered: id -> callee, caller and its request)."""
        regs = {p: bool(d.has_registration(p)) for p in procs}
        own = set()
        few = [s for s in sorted(M.attached) if s != leaving][:3]
        for p, i in some(M.last.items(), 12):
            for s in {M.owner.get(p, leaving), leaving, *few} & M.attached:
                c = copy.deepcopy(d)
                k, r = outcome(c.receive_message, s, make(wamp.BY_NAME["Unregister"], {"request_id": 1, "registration_id": i}))
                if k == "ok":
                    own.add((s, i))
        calls = {}
        his = [i for i, c in M.pending.items() if leaving in c[:2]]
        for i in set(M.made[-4:]) | set(his[:5]) | set(his[-3:]) | set(list(M.pending)[:5]) | set(list(M.pending)[-5:]):
            for s in {M.pending[i][1] if i in M.pending else leaving, *few[:2]} & M.attached:
                c = copy.deepcopy(d)
                k, r = outcome(c.receive_message, s, make(wamp.BY_NAME["Yield"], {"request_id": i, "options": None, "args": None, "kwargs": None}))
                if k == "ok" and is_message(r, messages.Result):
                    calls[i] = (s, r.recipient, r.message.request_id)
        return regs, own, calls

    def check_removed(self, d, M, s, before, procs, where):
        M.attached.discard(s)
        regs, own, calls = self.observe(d, M, procs, s)
        regs0, own0, calls0 = before
        mine = {p for p, o in M.owner.items() if o == s}
        M.attached.add(s)
        for p in procs:
            want = regs0[p] and p not in mine
            if regs[p] != want:
                wrong(["D04"], f"{where} afterwards has_registration({p!r}) is {regs[p]}")
        if own != {(o, i) for o, i in own0 if o != s}:
            wrong(["D04"], f"{where} registrations were {sorted(own0)}, afterwards {sorted(own)}")
        want = {i: c for i, c in calls0.items() if s not in c[:2]}
        if calls != want:
            wrong(["D04"], f"{where} calls in flight were {calls0} (invocation: callee, caller, request), afterwards {calls}")
        # a call it served is gone for its caller as well: the request id makes a new call
        for i, (caller, callee, req, _) in list(M.pending.items())[-12:]:
            if callee == s != caller and caller in M.attached:
                c = copy.deepcopy(d)
                name = "probe." + ".".join(map(str, procs))[:40]
                k, r = outcome(c.receive_message, caller, make(wamp.BY_NAME["Register"], {"request_id": 1, "options": None, "procedure": name}))
                if k == "raise" or not is_message(r, messages.Registered):
                    continue
                k, r = outcome(c.receive_message, caller, make(wamp.BY_NAME["Call"], self.a_call(req, name)))
                if k == "raise" or not is_message(r, messages.Invocation) or r.recipient != caller or r.message.request_id == i:
                    wrong(["D04"], f"{where} ended call {req} of session {caller} (invocation {i}), but a new call with that request id "
                                   f"gives {describe(r) if k == 'raise' else r!r}")
        # attached again it starts with nothing
        c = copy.deepcopy(d)
        k, r = outcome(c.add_session, types.SessionDetails(s, "realm", "id", "role"))
        if k == "raise":
            wrong(["D04"], f"{where} adding it again raises {describe(r)}")
        for p, i in some(M.last.items(), 12):
            k, r = outcome(copy.deepcopy(c).receive_message, s, make(wamp.BY_NAME["Unregister"], {"request_id": 1, "registration_id": i}))
            if k == "ok":
                wrong(["D04"], f"{where} added again it can unregister {i}")
        for i in calls0:
            k, r = outcome(copy.deepcopy(c).receive_message, s, make(wamp.BY_NAME["Yield"], {"request_id": i, "options": None, "args": None, "kwargs": None}))
            if k == "ok":
                wrong(["D04"], f"{where} added again it can answer invocation {i}")
        for p in some([p for p in M.owner if p not in mine], 8):
            for i, (caller, callee, req, _) in list(M.pending.items())[-12:]:
                if caller == s:
                    c2 = copy.deepcopy(c)
                    k, r = outcome(c2.receive_message, s, make(wamp.BY_NAME["Call"], self.a_call(req, p)))
                    if k == "raise" or not is_message(r, messages.Invocation):
                        wrong(["D04"], f"{where} added again its call {req} of {p!r} gives {describe(r) if k == 'raise' else r!r}")
                    if r.recipient != M.owner[p] or r.message.request_id in calls0:
                        wrong(["D04"], f"{where} added again its call {req} of {p!r} goes to session {r.recipient} "
                                       f"as invocation {r.message.request_id}")

    def finish(self, M, i):
        c = M.pending.pop(i)
        M.byreq.pop((c[0], c[2]), None)

    def do_reg(self, d, M, st, s, where, kept, procs):
        _, _, _, req, p, opts = st
        k, r = send(d.receive_message, "Register", {"request_id": req, "options": opts, "procedure": p}, kept, where, ["D01"], s)
        if self.refused(k, r, s not in M.attached, ["D01"], where):
            return
        self.addressed(M, r, where)
        if p in M.owner:
            if not is_message(r, messages.Error) or r.recipient != s:
                wrong(["D01"], f"{where} answers {r!r} although session {M.owner[p]} owns the procedure")
            m = r.message
            if (m.message_type, m.request_id, m.uri) != (REGISTER, req, "wamp.error.procedure_already_exists"):
                wrong(["D01"], f"{where} answers ERROR {fields_of(messages.Error, m)}")
            return
        if not is_message(r, messages.Registered) or r.recipient != s:
            wrong(["D01"], f"{where} answers {r!r} although the procedure is free")
        m = r.message
        if m.request_id != req and self.prop == "D01":
            wrong(["D01"], f"{where} is answered with request id {m.request_id}")
        if type(m.registration_id) is not int or m.registration_id in M.rid.values():
            wrong(["D01"], f"{where} gets registration id {m.registration_id}, which another registration has")
        M.owner[p], M.rid[p], M.last[p] = s, m.registration_id, m.registration_id

    def do_unreg(self, d, M, st, s, where, kept, procs):
        _, _, _, req, ref = st
        i = M.rid.get(ref, M.last.get(ref, 77)) if isinstance(ref, str) else ref
        p = next((q for q in M.owner if M.rid[q] == i), None)
        k, r = send(d.receive_message, "Unregister", {"request_id": req, "registration_id": i}, kept, where, ["D01"], s)
        must = s not in M.attached or p is None or M.owner[p] != s
        if self.refused(k, r, must, ["D01"], where):
            return
        self.addressed(M, r, where)
        if not is_message(r, messages.Unregistered) or r.recipient != s:
            wrong(["D01"], f"{where} answers {r!r}")
        if r.message.request_id != req and self.prop == "D01":
            wrong(["D01"], f"{where} is answered with request id {r.message.request_id}")
        del M.owner[p], M.rid[p]

    def do_call(self, d, M, st, s, where, kept, procs):
        f = st[3]
        p, req = f["procedure"], f["request_id"]
        k, r = send(d.receive_message, "Call", f, kept, where, ["D02"], s)
        if k == "raise":
            wrong(["D02"], f"{where} raises {describe(r)}")
        self.addressed(M, r, where)
        if p not in M.owner:
            if not is_message(r, messages.Error) or r.recipient != s:
                wrong(["D02"], f"{where} answers {r!r} although nobody registered the procedure")
            m = r.message
            if (m.message_type, m.request_id, m.uri) != (CALL, req, "wamp.error.no_such_procedure") and self.prop == "D02":
                wrong(["D02"], f"{where} answers ERROR {fields_of(messages.Error, m)}")
            return
        if not is_message(r, messages.Invocation):
            wrong(["D02"], f"{where} gives {r!r}")
        m = fields_of(messages.Invocation, r.message)
        i = m["request_id"]
        rp, pr = flag(f["options"], "receive_progress"), flag(f["options"], "progress")
        old = M.byreq.get((s, req))
        if old is not None:
            c = M.pending[old]
            if i != old or r.recipient != c[1]:
                wrong(["D02"], f"{where} continues invocation {old} of session {c[1]}, but goes to {r.recipient} as {i}")
            c[3].add(rp)
        else:
            if r.recipient != M.owner[p]:
                wrong(["D02"], f"{where} goes to session {r.recipient} instead of {M.owner[p]}")
            if m["registration_id"] != M.rid[p] and self.prop == "D02":
                wrong(["D02"], f"{where} carries registration id {m['registration_id']} instead of {M.rid[p]}")
            if type(i) is not int or i in M.pending:
                wrong(["D02"], f"{where} gets invocation id {i}, which another pending call has")
            M.pending[i] = [s, r.recipient, req, {rp}]
            M.byreq[(s, req)] = i
            M.made.append(i)
        if self.prop == "D02":
            self.handed_on(["D02"], r.message, f, where)
            if not strict_eq(m["args"], f["args"]) or not strict_eq(m["kwargs"], f["kwargs"]):
                wrong(["D02"], f"{where} the invocation carries args {m['args']!r} and kwargs {m['kwargs']!r}")
            if flag(m["details"], "receive_progress") != rp or flag(m["details"], "progress") != pr:
                wrong(["D02"], f"{where} the details of the invocation are {m['details']!r}")
            kept.append((f"{where} its invocation", lambda x=r.message: fields_of(messages.Invocation, x), copy.deepcopy(m)))

    def do_yield(self, d, M, st, s, where, kept, procs):
        i = self.invocation(M, st[3])
        f = {**st[4], "request_id": i}
        k, r = send(d.receive_message, "Yield", f, kept, where, ["D03"], s)
        c = M.pending.get(i)
        if self.refused(k, r, c is None or c[1] != s, ["D03"], f"{where} (invocation {i}, pending {c})"):
            return
        self.addressed(M, r, where)
        if not is_message(r, messages.Result) or r.recipient != c[0]:
            wrong(["D03"], f"{where} gives {r!r} instead of a RESULT for session {c[0]}")
        m = fields_of(messages.Result, r.message)
        if self.prop == "D03" and (m["request_id"] != c[2] or not strict_eq(m["args"], f["args"]) or not strict_eq(m["kwargs"], f["kwargs"])):
            wrong(["D03"], f"{where} gives RESULT {m!r} for request {c[2]}")
        if self.prop == "D03":
            self.handed_on(["D03"], r.message, f, where)
        if not flag(f["options"], "progress"):
            if flag(m["details"], "progress"):
                wrong(["D03"], f"{where} the RESULT says progress: {m['details']!r}")
            self.finish(M, i)
            return
        marked = flag(m["details"], "progress")
        if marked not in c[3]:
            wrong(["D03"], f"{where} the RESULT has details {m['details']!r}, the caller asked for progress: {sorted(c[3])}")
        if marked:
            c[3] = {True}
        else:
            self.finish(M, i)

    def do_error(self, d, M, st, s, where, kept, procs):
        i = self.invocation(M, st[3])
        f = {**st[4], "request_id": i}
        k, r = send(d.receive_message, "Error", f, kept, where, ["D03"], s)
        c = M.pending.get(i)
        if self.refused(k, r, f["message_type"] != INVOCATION or c is None or c[1] != s, ["D03"], f"{where} (invocation {i}, pending {c})"):
            return
        self.addressed(M, r, where)
        if not is_message(r, messages.Error) or r.recipient != c[0]:
            wrong(["D03"], f"{where} gives {r!r} instead of an ERROR for session {c[0]}")
        m = fields_of(messages.Error, r.message)
        want = {**reported(wamp.BY_NAME["Error"], f), "message_type": CALL, "request_id": c[2]}
        if self.prop == "D03" and not strict_eq(m, want):
            wrong(["D03"], f"{where} gives ERROR {m!r} instead of {want!r}")
        self.finish(M, i)

    def do_other(self, d, M, st, s, where, kept, procs):
        _, _, _, name, f = st
        if name in ("Register", "Unregister", "Call", "Yield", "Error"):
            return
        k, r = send(d.receive_message, name, f, kept, where, ["D01"], s)
        self.refused(k, r, True, ["D01", "D03"], where)


class D01(Dealers):
    prop = "D01"


class D02(Dealers):
    prop = "D02"


class D03(Dealers):
    prop = "D03"


class D04(Dealers):
    prop = "D04"
