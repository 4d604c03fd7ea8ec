"""S01, S02 on CPython: histories of two client sessions against a reference model."""
import copy

from wampproto import messages
from wampproto.session import WAMPSession
from wampproto.serializers import CBORSerializer, JSONSerializer, MsgPackSerializer
from spec import wamp
from .base import describe, outcome, sizes, strict_eq
from .messages import gen_fields, make, read, reported

KINDS = {"Call": 48, "Register": 64, "Unregister": 66, "Subscribe": 32, "Unsubscribe": 34, "Publish": 16}
REPLIES = ["Result", "Registered", "Unregistered", "Subscribed", "Unsubscribed", "Published", "Error", "Event", "Invocation",
           "Goodbye", "Abort"]
SENDS = list(KINDS) + ["Yield", "Error", "Goodbye"]
SER = {"json": JSONSerializer, "cbor": CBORSerializer, "msgpack": MsgPackSerializer}


class Model:
    def __init__(self):
        self.open = {k: {} for k in KINDS}
        self.held = {"reg": set(), "sub": set()}
        self.inv = set()
        self.vague = set()          # (kind, id): a refused UNREGISTERED / UNSUBSCRIBED: answered or not is left open

    def send(self, name, f):
        """None when it must be refused, else a function that records the sending."""
        i = f.get("request_id")
        if name in KINDS:
            if name == "Publish" and not (f.get("options") or {}).get("acknowledge", False):
                return lambda: None
            return lambda: (self.open[name].__setitem__(i, f.get("registration_id", f.get("subscription_id"))),
                            self.vague.discard((name, i)))
        if name == "Yield":
            if i not in self.inv:
                return None
            return lambda: None if (f.get("options") or {}).get("progress", False) else self.inv.discard(i)
        if name == "Error":
            return (lambda: self.inv.discard(i)) if f["message_type"] == 68 else None
        return (lambda: None) if name == "Goodbye" else None

    def receive(self, name, f):
        i = f.get("request_id")
        if name == "Result":
            if i not in self.open["Call"]:
                return None
            return lambda: None if (f.get("details") or {}).get("progress", False) else self.open["Call"].pop(i)
        if name in ("Registered", "Subscribed"):
            k, h, fld = ("Register", "reg", "registration_id") if name == "Registered" else ("Subscribe", "sub", "subscription_id")
            if i not in self.open[k]:
                return None
            return lambda: (self.open[k].pop(i), self.held[h].add(f[fld]))
        if name in ("Unregistered", "Unsubscribed"):
            k, h = ("Unregister", "reg") if name == "Unregistered" else ("Unsubscribe", "sub")
            if i not in self.open[k]:
                return None
            if self.open[k][i] not in self.held[h]:
                self.vague.add((k, i))
                return None
            return lambda: self.held[h].discard(self.open[k].pop(i))
        if name == "Published":
            return (lambda: self.open["Publish"].pop(i)) if i in self.open["Publish"] else None
        if name == "Error":
            for k, c in KINDS.items():
                if f["message_type"] == c and i in self.open[k]:
                    return lambda: self.open[k].pop(i)
            return None
        if name == "Event":
            return (lambda: None) if f["subscription_id"] in self.held["sub"] else None
        if name == "Invocation":
            return (lambda: self.inv.add(i)) if f["registration_id"] in self.held["reg"] else None
        return (lambda: None) if name in ("Goodbye", "Abort") else None

    def unclear(self, name, f):
        """Whether the request this answers may have been answered is left open."""
        k = {"Unregistered": "Unregister", "Unsubscribed": "Unsubscribe"}.get(name)
        if name == "Error":
            k = next((x for x, c in KINDS.items() if c == f["message_type"]), None)
        return k is not None and (k, f.get("request_id")) in self.vague


def step_fields(g, m, ids, code=None):
    f = gen_fields(g, m)
    for n in f:
        if n.endswith("_id") and f[n] is not None:
            f[n] = g.pick(ids)
    if "message_type" in f:
        f["message_type"] = code if code is not None else g.pick([48, 64, 66, 32, 34, 16, 68, 68, 68, 36, 1, 50, 0])
    for d, names in (("options", {"Publish": "acknowledge", "Yield": "progress", "Call": "progress"}), ("details", {"Result": "progress", "Invocation": "progress"})):
        if d in f and m.name in names:
            o = dict(f[d] or {})
            o.pop("acknowledge", None)
            o.pop("progress", None)
            if g.chance(0.5):
                o[names[m.name]] = g.chance(0.6)
            if g.chance(0.2):
                o[{"progress": "acknowledge", "acknowledge": "progress"}[names[m.name]]] = True
            f[d] = o or (None if g.chance(0.5) and d in m.optional else {})
    return f


class Sessions:
    history = True

    def cases(self, g):
        # systematic: every request, then every reply, twice; every message on its own
        for ser in SER:
            for m in wamp.MESSAGES:
                for how in ("send", "recv"):
                    yield ser, [(0, how, m.name, step_fields(g, m, [1]))]
        for name in SENDS[:6]:
            for rep in REPLIES:
                for code in (list(KINDS.values()) if rep == "Error" else [None]):
                    a = step_fields(g, wamp.BY_NAME[name], [1])
                    b = step_fields(g, wamp.BY_NAME[rep], [1], code)
                    yield "json", [(0, "send", name, a), (0, "recv", rep, b), (1, "recv", rep, b), (0, "recv", rep, b)]
                    yield "json", [(0, "fail", name, a), (0, "recv", rep, b), (0, "send", name, a), (0, "recv", rep, b)]
        for n in sizes():
            yield self.heavy(g, n)
        while True:
            if g.chance(0.02):
                yield self.heavy(g, g.pick(sizes()))
                continue
            ids = g.pick([[1, 2], [1, 2, 3], [1, 2 ** 53, 3], [g.id(), g.id(), g.id()], [1], list(range(1, 7)), [300, 1]])
            n = g.pick([4, 8, 16, 30])
            live = []
            steps = []
            models, gone = [Model(), Model()], [set(), set()]
            guided = g.chance(0.6)
            for _ in range(n):
                k = 0 if g.chance(0.8) else 1
                r = g.r.random()
                if guided and g.chance(0.6):
                    steps.append(self.fitting(g, k, models[k], gone[k], ids))
                elif r < 0.42:
                    name = g.pick(SENDS)
                    steps.append((k, "send" if g.chance(0.93) else "fail", name, step_fields(g, wamp.BY_NAME[name], ids)))
                elif r < 0.92:
                    name = g.pick(REPLIES)
                    f = step_fields(g, wamp.BY_NAME[name], ids)
                    if live and g.chance(0.6) and "request_id" in f:
                        want = g.pick(live)
                        f["request_id"] = want[1]
                        if name == "Error":
                            f["message_type"] = want[0]
                    steps.append((k, "recv", name, f))
                else:
                    m = g.pick(wamp.MESSAGES)
                    steps.append((k, g.pick(["send", "recv"]), m.name, step_fields(g, m, ids)))
                how, name, f = steps[-1][1:]
                apply = getattr(models[k], {"send": "send", "recv": "receive"}[how])(name, f) if how != "fail" else None
                if apply:
                    apply()
                if steps[-1][1] == "send" and steps[-1][2] in KINDS:
                    live.append((KINDS[steps[-1][2]], steps[-1][3]["request_id"]))
            yield g.pick(["json", "json", "cbor", "msgpack"]), steps

    def fitting(self, g, k, M, gone, ids):
        """A step that the session must accept, or one that answers something a second time."""
        by = wamp.BY_NAME
        steps = [("send", g.pick(list(KINDS)), {})]
        steps += [("send", n, {x: i}) for h, n, x in (("reg", "Unregister", "registration_id"), ("sub", "Unsubscribe", "subscription_id"))
                  for i in sorted(M.held[h])]
        for name, pending in M.open.items():
            rep = {"Call": "Result", "Publish": "Published", "Register": "Registered", "Subscribe": "Subscribed", "Unregister": "Unregistered",
                   "Unsubscribe": "Unsubscribed"}[name]
            for i in sorted(pending):
                steps += [("recv", rep, {"request_id": i}), ("recv", "Error", {"request_id": i, "message_type": KINDS[name]})]
        steps += [("recv", "Invocation", {"registration_id": i}) for i in sorted(M.held["reg"])] * 2
        steps += [("recv", "Event", {"subscription_id": i}) for i in sorted(M.held["sub"])]
        for i in sorted(M.inv | gone):
            steps += [("send", "Yield", {"request_id": i}), ("send", "Error", {"request_id": i, "message_type": 68})]
        how, name, f = g.pick(steps)
        if name == "Invocation":
            f["request_id"] = g.pick(ids)
            gone.add(f["request_id"])
        return k, how, name, {**step_fields(g, by[name], ids), **f}

    def heavy(self, g, n):
        """Many requests open at once; those sent first, last and in between are answered, some of them twice."""
        some = sorted({0, 1, n // 2, n - 2, n - 1})
        by = wamp.BY_NAME
        name = g.pick(list(KINDS))
        steps = []
        for i in range(n):
            f = gen_fields(g, by[name]) if not i else dict(f)
            f["request_id"] = i + 1
            if name == "Publish":
                f["options"] = {"acknowledge": True}
            for x in ("registration_id", "subscription_id"):
                if x in f:
                    f[x] = i + 1
            if name in ("Unregister", "Unsubscribe"):
                a, b, c = ("Register", "Registered", "registration_id") if name == "Unregister" else ("Subscribe", "Subscribed", "subscription_id")
                if not i:
                    fa, fb = gen_fields(g, by[a]), gen_fields(g, by[b])
                steps += [(0, "send", a, {**fa, "request_id": i + 1}), (0, "recv", b, {**fb, "request_id": i + 1, c: i + 1})]
            steps.append((0, "send", name, f))
        rep = {"Call": "Result", "Register": "Registered", "Unregister": "Unregistered", "Subscribe": "Subscribed",
               "Unsubscribe": "Unsubscribed", "Publish": "Published"}[name]
        f = step_fields(g, by[rep], [1])
        for i in some + some[:2]:
            f = {**f, "request_id": i + 1}
            for x in ("registration_id", "subscription_id"):
                if x in f:
                    f[x] = i + 1
            if "details" in f and f["details"]:
                f["details"] = {}
            if g.chance(0.8):
                steps.append((0, "recv", rep, f))
            else:
                steps.append((0, "recv", "Error", {**gen_fields(g, by["Error"]), "message_type": KINDS[name], "request_id": i + 1}))
        if name in ("Register", "Subscribe"):
            # all of them are held, then used
            c, use = ("registration_id", "Invocation") if name == "Register" else ("subscription_id", "Event")
            steps += [(0, "recv", rep, {**f, "request_id": i + 1, c: i + 1}) for i in range(n)]
            fu = step_fields(g, by[use], [1])
            for i in range(n) if name == "Register" else some:
                fu = {**fu, c: i + 1}
                if name == "Register":
                    fu["request_id"] = i + 1
                steps.append((0, "recv", use, fu))
            if name == "Register":
                steps += [(0, "send", "Yield", {**step_fields(g, by["Yield"], [i + 1]), "options": {}}) for i in some + some[:2]]
        return "json", steps

    def run(self, case):
        ser, steps = case
        s = SER[ser]()
        sessions = [WAMPSession(s), WAMPSession(SER[ser]())]
        models = [Model(), Model()]
        for n, (k, how, name, f) in enumerate(steps):
            m = wamp.BY_NAME[name]
            f = copy.deepcopy(f)
            msg = make(m, f)
            before = reported(m, copy.deepcopy(f))
            model, sess = models[k], sessions[k]
            where = f"step {n + 1} of session {k}: {how} {name} {before!r}"
            if how == "fail":
                for n2 in ("args", "options", "details"):
                    if n2 in before:
                        f[n2] = [object()] if n2 == "args" else {**(f[n2] or {}), "x": object()}
                        break
                else:
                    continue
                o, r = outcome(sess.send_message, make(m, f))
                if o == "ok":
                    return f"{where} with a value that cannot be serialised sends {r!r}"
                continue
            if how == "send":
                apply = model.send(name, f)
                o, r = outcome(sess.send_message, msg)
                if apply is None:
                    if o == "ok":
                        return f"{where} is not refused"
                    if not isinstance(r, ValueError):
                        return f"{where} raises {describe(r)}"
                    continue
                if o == "raise":
                    return f"{where} raises {describe(r)}"
                if not strict_eq(r, s.serialize(make(m, f))):
                    return f"{where} sends {r!r}"
                if not strict_eq(read(m, msg), before):
                    return f"{where} changes the message"
                apply()
                continue
            unclear = model.unclear(name, f)
            apply = model.receive(name, f)
            whole = n % 2 == 0
            o, r = outcome(sess.receive, s.serialize(msg)) if whole else outcome(sess.receive_message, msg)
            if o == "raise" and not isinstance(r, ValueError):
                return f"{where} raises {describe(r)}"
            if apply is None:
                if o == "ok":
                    return f"{where} is accepted"
                continue
            if o == "raise":
                if unclear:
                    continue
                return f"{where} is refused: {describe(r)}"
            if type(r) is not type(msg) or (not whole and r is not msg):
                return f"{where} returns {r!r}"
            want = dict(before)
            if m.payload and f["args"] is None and f["kwargs"] is not None and whole:
                want["args"] = []
            if not strict_eq(read(m, r), want):
                return f"{where} returns {read(m, r)!r}"
            apply()
        return None


class S01(Sessions):
    pass


class S02(Sessions):
    pass
