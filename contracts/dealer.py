"""D01-D04: the dealer.

Pre-state: any heap satisfying the representation invariant `invariant`, with any number of sessions, procedures,
registrations and calls in flight.  Each operation is run once on arbitrary inputs; proved are the invariant again, what
the operation does to the abstract state (who is attached, who owns which procedure under which registration id, which
invocations are pending for which caller, callee and request), and its answer.  The invariant holds of a new dealer, so
by induction over histories this is what D01-D04 say of every history.
"""
import z3

from wampproto import dealer as dealer_mod
from wampproto import idgen, messages, types
from spec import wamp
from .common import *
from .messages import arbitrary_fields, build, same_value
from .broker import forall, details, a_message, untouched, answer, outcome, asked, map_of, both

K_REGISTRANTS = KMap("registrants", K_INT, K_INT)
K_REG = KObj(dealer_mod.Registration, {"id": K_INT, "procedure": K_STR, "registrants": K_REGISTRANTS,
                                       "invocation_policy": K_ANY})
K_OF = KMap("registrations of a session", K_INT, K_REG)
K_PEND = KObj(dealer_mod.PendingInvocation, {"request_id": K_INT, "caller_id": K_INT, "callee_id": K_INT,
                                             "progress": K_ANY, "receive_progress": K_ANY})
KINDS = {"registrations_by_procedure": (K_STR, K_REG), "registrations_by_session": (K_INT, K_OF),
         "pending_calls": (K_INT, K_PEND), "call_to_invocation_id": (K_PAIR, K_INT), "sessions": (K_INT, K_ANY)}
ATTRS = set(KINDS) | {"idgen"}
REG, PEND, ANSWERS, ATTACHED = "registrations", "pending calls", "answers", "attached only"
CALL, REGISTER, INVOCATION = 48, 64, 68


def setup(e):
    e.schemas[dealer_mod.Registration] = K_REG
    e.schemas[dealer_mod.PendingInvocation] = K_PEND
    e.loop_invs += [LeavingRegistrations(), LeavingCalls()]


class State:
    """The arrays making up a dealer's state at one moment."""
    def __init__(self, e, d, pre=False):
        h = (lambda k: e.hpre(*k)) if pre else (lambda k: e.hget(*k))
        self.e = e
        self.rh, self.rg = map_of(e, d, "registrations_by_procedure", KINDS)
        self.sh, self.sg = map_of(e, d, "registrations_by_session", KINDS)
        self.ph, self.pg = map_of(e, d, "pending_calls", KINDS)
        self.ch, self.cg = map_of(e, d, "call_to_invocation_id", KINDS)
        self.ses = map_of(e, d, "sessions", KINDS)[0]
        self.id, self.proc, self.regs = (h(e.attr_key(K_REG, a)) for a in ("id", "procedure", "registrants"))
        self.preq, self.pcaller, self.pcallee, self.pprog, self.prp = (
            h(e.attr_key(K_PEND, a)) for a in ("request_id", "caller_id", "callee_id", "progress", "receive_progress"))
        self.ih, self.ig = h(e.has_key(K_REGISTRANTS)), h(e.get_key(K_REGISTRANTS))
        self.oh, self.og = h(e.has_key(K_OF)), h(e.get_key(K_OF))
        g = d.attrs["idgen"]
        if not isinstance(g, HInst) or g.cls is not idgen.SessionScopeIDGenerator or set(g.attrs) != {"id"}:
            raise Unsupported("representation of the id generator")
        n = e.int_term(g.attrs["id"])
        if n is None:
            raise Unsupported("representation of the id generator")
        self.n = Z(n)

    # abstract state
    def attached(self, s):
        return sel(self.sh, s)

    def has(self, p):
        return sel(self.rh, p)

    def rid(self, p):
        return sel(self.id, sel(self.rg, p))

    def members(self, p):
        return sel(self.ih, sel(self.regs, sel(self.rg, p)))

    def owns(self, s, p):
        return z3.And(self.has(p), sel(self.members(p), s))

    def holds(self, s, i):
        return z3.And(self.attached(s), sel(sel(self.oh, sel(self.sg, s)), i))

    def under(self, s, i):
        return sel(sel(self.og, sel(self.sg, s)), i)

    def pending(self, i):
        return sel(self.ph, i)

    def req(self, i):
        return sel(self.preq, sel(self.pg, i))

    def caller(self, i):
        return sel(self.pcaller, sel(self.pg, i))

    def callee(self, i):
        return sel(self.pcallee, sel(self.pg, i))

    def progressive(self, i):
        return Val.bv(sel(self.prp, sel(self.pg, i)))


REDUNDANT = ("attached sessions have an entry in both session tables", "registrant tables map sessions to themselves")


def reg_invariant(S):
    p, q, s, s2, i = z3.Ints("p q s s2 i")
    a = sel(S.rg, p)
    pair = (S.has(p), S.has(q))
    yield "attached sessions have an entry in both session tables", z3.ForAll([s], sel(S.sh, s) == sel(S.ses, s))
    yield "attached session ids are valid", forall([s], z3.Implies(S.attached(s), z3.And(s >= 1, s <= wamp.MAX_ID)), S.attached(s))
    yield "a registration is filed under its procedure, with an id drawn before", forall([p], z3.Implies(
        S.has(p), z3.And(sel(S.proc, a) == p, S.rid(p) >= 1, S.rid(p) <= S.n)), S.has(p))
    yield "no two procedures share a registration id", forall([p, q], z3.Implies(
        z3.And(S.has(p), S.has(q), S.rid(p) == S.rid(q)), p == q), pair)
    yield "no two procedures share a registrant table", forall([p, q], z3.Implies(
        z3.And(S.has(p), S.has(q), sel(S.regs, sel(S.rg, p)) == sel(S.regs, sel(S.rg, q))), p == q), pair)
    yield "no two sessions share a registration table", forall([s, s2], z3.Implies(
        z3.And(S.attached(s), S.attached(s2), sel(S.sg, s) == sel(S.sg, s2)), s == s2), (S.attached(s), S.attached(s2)))
    yield "a registered procedure has an owner", forall([p], z3.Implies(S.has(p), S.members(p) != EMPTY(I)), S.has(p))
    yield "a procedure has one owner", forall([p, s, s2], z3.Implies(
        z3.And(S.owns(s, p), S.owns(s2, p)), s == s2), (S.has(p), sel(S.members(p), s), sel(S.members(p), s2)))
    yield "an owner is attached and holds the registration under its id", forall([p, s], z3.Implies(
        S.owns(s, p), z3.And(S.holds(s, S.rid(p)), S.under(s, S.rid(p)) == a)), (S.has(p), sel(S.members(p), s)))
    yield "registrant tables map sessions to themselves", forall([p, s], z3.Implies(
        S.owns(s, p), sel(sel(S.ig, sel(S.regs, a)), s) == s), (S.has(p), sel(S.members(p), s)))
    x = S.under(s, i)
    yield "every registration a session holds is in the procedure index and lists the session", forall([s, i], z3.Implies(
        S.holds(s, i), z3.And(sel(S.id, x) == i, S.has(sel(S.proc, x)), sel(S.rg, sel(S.proc, x)) == x,
                              sel(sel(S.ih, sel(S.regs, x)), s))), sel(sel(S.oh, sel(S.sg, s)), i))
    yield "ids drawn so far", z3.And(S.n >= 0, S.n <= wamp.MAX_ID)


def pend_invariant(S):
    i, c, r = z3.Ints("i c r")
    k = Pair.mk(c, r)
    yield "a pending call is filed under an invocation id drawn before, and under its caller and request", forall([i], z3.Implies(
        S.pending(i), z3.And(i >= 1, i <= S.n, sel(S.ch, Pair.mk(S.caller(i), S.req(i))),
                             sel(S.cg, Pair.mk(S.caller(i), S.req(i))) == i)), S.pending(i))
    j = sel(S.cg, k)
    yield "what is filed under a caller and request is that caller's pending call", forall([c, r], z3.Implies(
        sel(S.ch, k), z3.And(S.pending(j), S.caller(j) == c, S.req(j) == r)), sel(S.ch, k))
    yield "the progress flags of a pending call are booleans", forall([i], z3.Implies(
        S.pending(i), z3.And(Val.is_bool(sel(S.prp, sel(S.pg, i))))), S.pending(i))


def invariant(S):
    yield from reg_invariant(S)
    yield from pend_invariant(S)


def attached_invariant(S):
    i = z3.Int("i")
    yield "callers and callees of pending calls are attached", forall([i], z3.Implies(
        S.pending(i), z3.And(S.attached(S.caller(i)), S.attached(S.callee(i)))), S.pending(i))


def allocated_before(S):
    """Objects of the pre-state are not the ones allocated later."""
    p, s, i = z3.Ints("p s i")
    yield forall([p], z3.Implies(S.has(p), z3.And(sel(S.rg, p) <= 0, sel(S.regs, sel(S.rg, p)) <= 0)), S.has(p))
    yield forall([s], z3.Implies(S.attached(s), sel(S.sg, s) <= 0), S.attached(s))
    yield forall([s, i], z3.Implies(S.holds(s, i), S.under(s, i) <= 0), sel(sel(S.oh, sel(S.sg, s)), i))
    yield forall([i], z3.Implies(S.pending(i), sel(S.pg, i) <= 0), S.pending(i))


def new_dealer(e):
    d = e.call(dealer_mod.Dealer, [], {})
    if not isinstance(d, HInst) or not ATTRS <= set(d.attrs):
        raise Unsupported(f"representation of the dealer: {sorted(getattr(d, 'attrs', {}))}")
    return d


def as_maps(e, d, fresh):
    for n, (kk, vk) in KINDS.items():
        v = e.resolve(d.attrs[n])
        if not isinstance(v, HDict) or v.entries:
            raise Unsupported(f"representation of {n}: {v!r}")
        get = z3.Const("get_" + n, z3.ArraySort(kk.sort, vk.sort))
        has = z3.Const("pre_" + n, z3.ArraySort(kk.sort, B)) if fresh else EMPTY(kk.sort)
        d.attrs[n] = e.track(RootMap(n, kk, vk, has, get))


def a_dealer(e, parts, ob=None):
    """A dealer in any state satisfying the invariant, and that state."""
    d = new_dealer(e)
    e.ghost["spare"] = spare(e, d, ATTRS)
    as_maps(e, d, True)
    g = d.attrs["idgen"]
    if not isinstance(g, HInst) or set(g.attrs) != {"id"}:
        raise Unsupported("representation of the id generator")
    g.attrs["id"] = SInt(z3.Int("drawn"))
    S = State(e, d, pre=True)
    for _, f in invariant(S):
        e.assume(f)
    for f in allocated_before(S):
        e.assume(f)
    if ATTACHED in parts:
        for _, f in attached_invariant(S):
            e.assume(f)
    e.assume(S.n < wamp.MAX_ID)          # fewer than 2**53 ids drawn over the life of the router
    return d, S


def after(e, d, ob, parts):
    """State after an operation; the invariant holds of it."""
    spared(e, d, ATTRS, e.ghost["spare"])
    P = State(e, d)
    inv = []
    if REG in parts:
        inv += reg_invariant(P)
    if PEND in parts:
        inv += pend_invariant(P)
    if ATTACHED in parts:
        inv += attached_invariant(P)
    for name, f in inv:
        e.prove(f"{ob}: {name}", f, lemma=name in REDUNDANT)
    return P


def effect(e, ob, parts, S, P, accept=True, attached=None, owns=None, pending=None):
    """P differs from S only as given, and not at all if the operation has to be refused."""
    s, p, i = z3.Ints("s_any p_any i_any")
    acc = Z(accept)
    if REG in parts:
        e.prove(f"{ob}: who is attached afterwards",
                P.attached(s) == z3.If(acc, attached(s) if attached else S.attached(s), S.attached(s)))
        e.prove(f"{ob}: who owns which procedure afterwards",
                P.owns(s, p) == z3.If(acc, owns(s, p) if owns else S.owns(s, p), S.owns(s, p)))
        e.prove(f"{ob}: the registration id of a procedure that stays with its owner does not change",
                z3.Implies(z3.And(S.owns(s, p), P.owns(s, p)), P.rid(p) == S.rid(p)))
    if PEND in parts:
        e.prove(f"{ob}: which calls are pending afterwards",
                P.pending(i) == z3.If(acc, pending(i) if pending else S.pending(i), S.pending(i)))
        e.prove(f"{ob}: pending calls keep their caller, callee and request", z3.Implies(
            z3.And(S.pending(i), P.pending(i)),
            z3.And(P.caller(i) == S.caller(i), P.callee(i) == S.callee(i), P.req(i) == S.req(i))))


def flags_kept(e, ob, parts, S, P, but=None):
    if PEND in parts:
        i = z3.Int("i_any")
        e.prove(f"{ob}: pending calls keep whether their caller asked for progress", z3.Implies(
            z3.And(S.pending(i), P.pending(i), TRUE if but is None else i != but), P.progressive(i) == S.progressive(i)))


def outc(e, ob, parts, ok, r, accept):
    outcome(e, ob, ("answers",) if ANSWERS in parts else (), ok, r, accept)


def addressed(e, ob, parts, ok, r, P, sid):
    """What the dealer sends goes to attached sessions."""
    if ATTACHED in parts and ok:
        if not (isinstance(r, HInst) and r.cls is types.MessageWithRecipient):
            raise Unsupported("form of the answer")
        t = e.int_term(r.attrs["recipient"])
        e.prove(f"{ob}: the recipient is attached", t is not None and P.attached(t), info=r.attrs["recipient"])


# ---- loops of remove_session -------------------------------------------------------------------------

class LeavingRegistrations:
    """Over the registrations of the session that leaves, or over all procedures."""
    name = "remove_session loop invariant (registrations)"

    def applies(self, e, it):
        v = it.src
        return isinstance(v, (HeapMap, RootMap)) and e.map_kinds(v)[1] is K_REG and "leaving" in e.ghost

    def entry(self, e, it):
        d, sid = e.ghost["leaving"]
        return State(e, d), sid, e.map_kinds(it.src)[0], e.mload(it.src)[0]

    def formula(self, e, it, S0, done):
        S, sid, kk, mine = S0
        N = State(e, e.ghost["leaving"][0])
        p = z3.Int("p")
        if kk is K_INT:
            gone = lambda p: z3.And(sel(mine, S.rid(p)), done(S.rid(p)))
        else:
            gone = lambda p: z3.And(sel(mine, p), done(p), S.owns(sid, p))
        addr = sel(S.regs, sel(S.rg, p))
        left = z3.Store(sel(S.ih, addr), sid, FALSE)
        return z3.And(
            *[getattr(N, a) == getattr(S, a) for a in ("rg", "sh", "sg", "ph", "pg", "ch", "cg", "ses", "id", "proc", "regs",
                                                       "preq", "pcaller", "pcallee", "prp", "ig", "oh", "og", "n")],
            forall([p], z3.Implies(S.has(p), z3.And(
                z3.Implies(gone(p), sel(N.ih, addr) == left),
                z3.Implies(z3.Not(gone(p)), sel(N.ih, addr) == sel(S.ih, addr)))), S.has(p)),
            forall([p], sel(N.rh, p) == z3.And(S.has(p), z3.Not(z3.And(gone(p), left == EMPTY(I)))), sel(N.rh, p), S.has(p)))


class LeavingCalls:
    """Over the pending calls."""
    name = "remove_session loop invariant (calls)"

    def applies(self, e, it):
        v = it.src
        return isinstance(v, RootMap) and v.key is K_INT and v.val is K_PEND and "leaving" in e.ghost

    def entry(self, e, it):
        d, sid = e.ghost["leaving"]
        return State(e, d), sid

    def formula(self, e, it, S0, done):
        S, sid = S0
        N = State(e, e.ghost["leaving"][0])
        i, c, r = z3.Ints("i c r")
        gone = lambda i: z3.And(S.pending(i), done(i), z3.Or(S.caller(i) == sid, S.callee(i) == sid))
        k = Pair.mk(c, r)
        return z3.And(
            *[getattr(N, a) == getattr(S, a) for a in ("rh", "rg", "sh", "sg", "pg", "cg", "ses", "id", "proc", "regs",
                                                       "preq", "pcaller", "pcallee", "prp", "ih", "ig", "oh", "og", "n")],
            forall([i], sel(N.ph, i) == z3.And(S.pending(i), z3.Not(gone(i))), sel(N.ph, i), S.pending(i)),
            forall([c, r], sel(N.ch, k) == z3.And(sel(S.ch, k), z3.Not(gone(sel(S.cg, k)))), sel(N.ch, k), sel(S.ch, k)))


# ---- operations ------------------------------------------------------------------------------------

def initial(n):
    def run(e):
        ob = f"{n} new dealer"
        d, d2 = new_dealer(e), new_dealer(e)
        for a in sorted(ATTRS):
            e.prove(f"{ob}: its {a} is its own", e.resolve(d.attrs[a]) is not e.resolve(d2.attrs[a]))
        e.ghost["spare"] = spare(e, d, ATTRS)
        as_maps(e, d, False)
        P = after(e, d, ob, (REG, PEND, ATTACHED))
        e.cover(ob)
        s, p, i = z3.Ints("s_any p_any i_any")
        e.prove(f"{ob}: no session is attached", z3.Not(P.attached(s)))
        e.prove(f"{ob}: no procedure is registered", z3.Not(P.has(p)))
        e.prove(f"{ob}: no call is pending", z3.Not(P.pending(i)))
    return run


def add_session(n, parts):
    def run(e):
        ob = f"{n} add_session"
        sid = int_in(e, "sid", 1, wamp.MAX_ID)
        det = details(e, sid)
        d, S = a_dealer(e, parts)
        accept = z3.Not(S.attached(sid.t))
        ok, r = method(e, d, "add_session", det)
        P = after(e, d, ob, parts)
        outc(e, ob, parts, ok, r, accept)
        effect(e, ob, parts, S, P, accept, attached=lambda s: z3.Or(S.attached(s), s == sid.t))
        flags_kept(e, ob, parts, S, P)
    return run


def remove_session(n, parts):
    def run(e):
        ob = f"{n} remove_session"
        sid = int_in(e, "sid", 1, wamp.MAX_ID)
        d, S = a_dealer(e, parts)
        e.ghost["leaving"] = (d, sid.t)
        accept = S.attached(sid.t)
        ok, r = method(e, d, "remove_session", sid)
        P = after(e, d, ob, parts)
        outc(e, ob, parts, ok, r, accept)
        effect(e, ob, parts, S, P, accept, attached=lambda s: z3.And(S.attached(s), s != sid.t),
               owns=lambda s, p: z3.And(S.owns(s, p), s != sid.t),
               pending=lambda i: z3.And(S.pending(i), S.caller(i) != sid.t, S.callee(i) != sid.t))
        flags_kept(e, ob, parts, S, P)
    return run


def has_registration(e):
    ob = "D01 has_registration"
    proc = sstr("procedure")
    parts = (REG, PEND, ANSWERS)
    d, S = a_dealer(e, parts)
    ok, r = method(e, d, "has_registration", proc)
    P = after(e, d, ob, parts)
    if not ok:
        e.fail(f"{ob}: does not raise", r)
        return
    e.cover(ob)
    s = z3.Int("s_any")
    yes = Z(e.truth(r))
    e.prove(f"{ob}: true when the procedure has an owner", z3.Implies(S.owns(s, proc.t), yes), info=r)
    e.prove(f"{ob}: true only when it has one", z3.Implies(yes, z3.And(S.has(proc.t), S.members(proc.t) != EMPTY(I))), info=r)
    effect(e, ob, parts, S, P)


def opaque_fields(e):
    """An opaque payload, its serializer id and its binary flag, each given or not."""
    return {"serializer": maybe(e, lambda: int_in(e, "payload_serializer")), "payload": maybe(e, lambda: sbytes("payload")),
            "binary": SBool(z3.Bool("binary")) if e.choose(2) else None}


def handed_on(e, ob, m, msg):
    """m carries the payload of msg: args and kwargs, and the opaque payload with its serializer id and binary flag."""
    for f in ("args", "kwargs", "payload", "payload_serializer"):
        e.prove(f"{ob}: {f} of the message handed on", same_value(e, e.getattr(m, f), e.getattr(msg, f)), info=f)
    flags = [method(e, x, "payload_is_binary") for x in (m, msg)]
    e.prove(f"{ob}: binary flag of the message handed on",
            all(ok and e.pytype(b) is bool for ok, b in flags) and Iff(*[e.truth(b) for _, b in flags]), info=flags)


def begin(e, n, parts, name):
    if ANSWERS in parts and name in ("Call", "Yield"):
        m = wamp.BY_NAME[name]
        msg = build(e, m, {**arbitrary_fields(e, m), **opaque_fields(e)})
    else:
        msg = a_message(e, name)
    before = e.snapshot()
    sid = int_in(e, "sid", 1, wamp.MAX_ID)
    return msg, before, sid


def enter(e, parts, sid):
    d, S = a_dealer(e, parts)
    if ATTACHED in parts:
        e.assume(S.attached(sid.t))
    return d, S


def register(n, parts):
    def run(e):
        ob = f"{n} REGISTER"
        msg, before, sid = begin(e, n, parts, "Register")
        proc, req = e.getattr(msg, "procedure"), e.getattr(msg, "request_id")
        d, S = enter(e, parts, sid)
        accept = S.attached(sid.t)
        ok, r = method(e, d, "receive_message", sid, msg)
        P = after(e, d, ob, parts)
        outc(e, ob, parts, ok, r, accept)
        free = z3.Not(S.has(proc.t))
        effect(e, ob, parts, S, P, accept, owns=lambda s, p: z3.Or(S.owns(s, p), z3.And(free, s == sid.t, p == proc.t)))
        flags_kept(e, ob, parts, S, P)
        addressed(e, ob, parts, ok, r, P, sid)
        if ANSWERS in parts:
            untouched(e, ob, before)
            if ok:
                if e.branch(free):
                    e.cover(f"{ob} of a free procedure")
                    answer(e, ob, r, messages.Registered, sid, {"request_id": req, "registration_id": SInt(P.rid(proc.t))})
                else:
                    e.cover(f"{ob} of a taken procedure")
                    answer(e, f"{ob} of a taken procedure", r, messages.Error, sid, {
                        "message_type": REGISTER, "request_id": req, "uri": "wamp.error.procedure_already_exists"})
    return run


def unregister(n, parts):
    def run(e):
        ob = f"{n} UNREGISTER"
        msg, before, sid = begin(e, n, parts, "Unregister")
        i = e.getattr(msg, "registration_id").t
        d, S = enter(e, parts, sid)
        accept = S.holds(sid.t, i)
        ok, r = method(e, d, "receive_message", sid, msg)
        P = after(e, d, ob, parts)
        outc(e, ob, parts, ok, r, accept)
        effect(e, ob, parts, S, P, accept, owns=lambda s, p: z3.And(S.owns(s, p), z3.Not(z3.And(s == sid.t, S.rid(p) == i))))
        flags_kept(e, ob, parts, S, P)
        addressed(e, ob, parts, ok, r, P, sid)
        if ANSWERS in parts:
            untouched(e, ob, before)
            if ok:
                answer(e, ob, r, messages.Unregistered, sid, {"request_id": e.getattr(msg, "request_id")})
    return run


def option_true(e, v, name):
    """The details v say name is true."""
    x = e.dict_get(v, name, False)
    return Z(e.truth(x))


def call(n, parts):
    def run(e):
        ob = f"{n} CALL"
        msg, before, sid = begin(e, n, parts, "Call")
        proc, req = e.getattr(msg, "procedure").t, e.getattr(msg, "request_id")
        options = e.getattr(msg, "options")
        want_rp, want_p = asked(e, options, "receive_progress"), asked(e, options, "progress")
        d, S = enter(e, parts, sid)
        key = Pair.mk(sid.t, req.t)
        inv = sel(S.cg, key)
        cont = sel(S.ch, key)
        ok, r = method(e, d, "receive_message", sid, msg)
        P = after(e, d, ob, parts)
        outc(e, ob, parts, ok, r, True)
        found = S.has(proc)
        new = z3.Int("i_new")
        # a call of a registered procedure not continuing a pending one becomes pending under an id drawn for it
        fresh = lambda i: z3.And(i > S.n, i <= P.n, P.pending(i))
        i, j = z3.Ints("i_any j_any")
        effect(e, ob, parts, S, P, pending=lambda i: z3.Or(S.pending(i), z3.And(found, z3.Not(cont), fresh(i))))
        flags_kept(e, ob, parts, S, P, but=z3.If(cont, inv, z3.IntVal(0)))
        if PEND in parts:
            s = z3.Int("s_any")
            e.prove(f"{ob}: a new pending call is this one", z3.Implies(z3.And(P.pending(i), z3.Not(S.pending(i))), z3.And(
                P.caller(i) == sid.t, P.req(i) == req.t, sel(S.members(proc), P.callee(i)), P.progressive(i) == want_rp)))
            e.prove(f"{ob}: one new pending call at most", z3.Implies(z3.And(
                P.pending(i), z3.Not(S.pending(i)), P.pending(j), z3.Not(S.pending(j))), i == j))
            e.prove(f"{ob}: a continued call keeps what its caller asked for or takes what it asks for now", z3.Implies(
                z3.And(found, cont), z3.Or(P.progressive(inv) == S.progressive(inv), P.progressive(inv) == want_rp)))
        addressed(e, ob, parts, ok, r, P, sid)
        if ANSWERS not in parts:
            return
        untouched(e, ob, before)
        if not ok:
            return
        if not e.branch(found):
            e.cover(f"{ob} of an unknown procedure")
            answer(e, f"{ob} of an unknown procedure", r, messages.Error, sid, {
                "message_type": CALL, "request_id": req, "uri": "wamp.error.no_such_procedure"})
            return
        good = isinstance(r, HInst) and r.cls is types.MessageWithRecipient
        e.prove(f"{ob}: answers with a message and its recipient", good, info=r)
        if not good:
            return
        m = e.resolve(r.attrs["message"])
        good = isinstance(m, HInst) and m.cls is messages.Invocation
        e.prove(f"{ob}: becomes an INVOCATION", good, info=m)
        to = e.int_term(r.attrs["recipient"])
        e.prove(f"{ob}: it is addressed to a session", to is not None, info=r.attrs["recipient"])
        if not good or to is None:
            return
        rid = e.int_term(e.getattr(m, "request_id"))
        reg = e.int_term(e.getattr(m, "registration_id"))
        e.prove(f"{ob}: invocation and registration ids are integers", rid is not None and reg is not None)
        if rid is None or reg is None:
            return
        if e.branch(cont):
            e.cover(f"{ob} continued")
            e.prove(f"{ob} continued: same invocation id", rid == inv)
            e.prove(f"{ob} continued: same callee", to == S.callee(inv), info=to)
        else:
            e.cover(f"{ob} of a registered procedure")
            e.prove(f"{ob}: goes to the owner of the procedure", sel(S.members(proc), to), info=to)
            e.prove(f"{ob}: carries the registration id", reg == S.rid(proc), info=reg)
            e.prove(f"{ob}: carries an invocation id no other pending call has", z3.Not(S.pending(rid)), info=rid)
            e.prove(f"{ob}: is pending under its invocation id, with its callee", z3.And(
                P.pending(rid), P.caller(rid) == sid.t, P.req(rid) == req.t, P.callee(rid) == to), info=rid)
        handed_on(e, ob, m, msg)
        det = e.getattr(m, "details")
        e.prove(f"{ob}: the invocation says progress exactly when the caller did", option_true(e, det, "progress") == want_p, info=det)
        e.prove(f"{ob}: the invocation says receive_progress exactly when the caller did",
                option_true(e, det, "receive_progress") == want_rp, info=det)
    return run


def yield_(n, parts):
    def run(e):
        ob = f"{n} YIELD"
        msg, before, sid = begin(e, n, parts, "Yield")
        i = e.getattr(msg, "request_id").t
        prog = asked(e, e.getattr(msg, "options"), "progress")
        d, S = enter(e, parts, sid)
        accept = z3.And(S.pending(i), S.callee(i) == sid.t)
        ok, r = method(e, d, "receive_message", sid, msg)
        P = after(e, d, ob, parts)
        outc(e, ob, parts, ok, r, accept)
        stays = z3.And(prog, S.progressive(i))
        effect(e, ob, parts, S, P, accept, pending=lambda j: z3.And(S.pending(j), z3.Or(j != i, stays)))
        flags_kept(e, ob, parts, S, P)
        addressed(e, ob, parts, ok, r, P, sid)
        if ANSWERS not in parts:
            return
        untouched(e, ob, before)
        if not ok:
            return
        m = answer(e, ob, r, messages.Result, SInt(S.caller(i)), {
            "request_id": SInt(S.req(i))})
        if m is not None:
            handed_on(e, ob, m, msg)
            det = e.getattr(m, "details")
            e.prove(f"{ob}: marked progress exactly when the call stays pending", option_true(e, det, "progress") == stays, info=det)
            if e.branch(stays):
                e.cover(f"{ob} progressive")
    return run


def error(n, parts):
    def run(e):
        ob = f"{n} ERROR"
        msg, before, sid = begin(e, n, parts, "Error")
        i = e.getattr(msg, "request_id").t
        d, S = enter(e, parts, sid)
        accept = z3.And(e.getattr(msg, "message_type").t == INVOCATION, S.pending(i), S.callee(i) == sid.t)
        ok, r = method(e, d, "receive_message", sid, msg)
        P = after(e, d, ob, parts)
        outc(e, ob, parts, ok, r, accept)
        effect(e, ob, parts, S, P, accept, pending=lambda j: z3.And(S.pending(j), j != i))
        flags_kept(e, ob, parts, S, P)
        addressed(e, ob, parts, ok, r, P, sid)
        if ANSWERS in parts:
            untouched(e, ob, before)
            if ok:
                answer(e, ob, r, messages.Error, SInt(S.caller(i)), {
                    "message_type": CALL, "request_id": SInt(S.req(i)), **{
                        f: e.getattr(msg, f) for f in ("uri", "args", "kwargs", "details")}})
    return run


def unsupported(n, parts, m):
    def run(e):
        ob = f"{n} {m.name}"
        msg, before, sid = begin(e, n, parts, m.name)
        d, S = enter(e, parts, sid)
        ok, r = method(e, d, "receive_message", sid, msg)
        P = after(e, d, ob, parts)
        outc(e, ob, parts, ok, r, False)
        effect(e, ob, parts, S, P)
        flags_kept(e, ob, parts, S, P)
        addressed(e, ob, parts, ok, r, P, sid)
        if ANSWERS in parts:
            untouched(e, ob, before)
    return run


SUPPORTED = ("Call", "Yield", "Register", "Unregister", "Error")


def T(name, fn, **kw):
    return Task(name, fn, setup, quantified=True, **kw)


def tasks(n, state, answers):
    """Every operation with its effect on the parts of the state the property speaks of; the answers it speaks of."""
    ps = lambda x: tuple(state) + ((ANSWERS,) if x in answers else ())
    need = lambda ob, x, *more: both(f"{n} {ob}") + more if x in answers else ()
    return [
        T(f"{n} new dealer", initial(n), needs=(f"{n} new dealer",)),
        T(f"{n} add_session", add_session(n, ps("sessions")), needs=need("add_session", "sessions")),
        T(f"{n} remove_session", remove_session(n, ps("sessions")), weight=6, needs=need("remove_session", "sessions")),
        T(f"{n} REGISTER", register(n, ps("Register")), weight=2, needs=() if "Register" not in answers else (
            f"{n} REGISTER of a free procedure", f"{n} REGISTER of a taken procedure")),
        T(f"{n} UNREGISTER", unregister(n, ps("Unregister")), weight=2),
        T(f"{n} CALL", call(n, ps("Call")), weight=4, needs=() if "Call" not in answers else (
            f"{n} CALL of an unknown procedure", f"{n} CALL continued", f"{n} CALL of a registered procedure")),
        T(f"{n} YIELD", yield_(n, ps("Yield")), weight=2, needs=need("YIELD", "Yield", f"{n} YIELD progressive")),
        T(f"{n} ERROR", error(n, ps("Error")), weight=2, needs=need("ERROR", "Error"))] + [
        T(f"{n} {m.name}", unsupported(n, ps("unsupported"), m)) for m in wamp.MESSAGES if m.name not in SUPPORTED]


def tasks_d01():
    return tasks("D01", (REG,), ("sessions", "Register", "Unregister", "unsupported")) + [T("D01 has_registration", has_registration)]


def tasks_d02():
    return tasks("D02", (REG, PEND), ("Call",))


def tasks_d03():
    return tasks("D03", (PEND,), ("Yield", "Error"))


def tasks_d04():
    return tasks("D04", (REG, PEND, ATTACHED), ("sessions",))
