"""Path exploration, path conditions, obligations, and the symbolic heap."""
import time

import z3

from .terms import *


class Unsupported(Exception):
    """The construct is outside the verifier's reach: the obligation stays undecided."""


class PathEnd(Exception):
    """This path is infeasible or is done."""


class PyRaise(Exception):
    """An exception of the verified program."""
    def __init__(self, exc):
        super().__init__(exc)
        self.exc = exc


class Return(Exception):
    def __init__(self, value):
        self.value = value


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Frame:
    def __init__(self, fn, globals_, locals_, parent=None, cls=None, cells=None, comp=False):
        self.comp = comp                    # the scope of a comprehension
        self.fn, self.globals, self.locals, self.parent, self.cls = fn, globals_, locals_, parent, cls
        self.cells = cells or {}
        self.nonlocals = set()
        self.exc = None


class Outcome:
    def __init__(self, kind, pc, value=None):
        self.kind, self.pc, self.value = kind, pc, value
        self.effects = None
        self.syms = None


STATS = {"checks": 0, "time": 0.0, "max": 0.0}


class Engine:
    feas_ms = 400
    prove_ms = 8000
    max_paths = 6000
    max_depth = 60

    def __init__(self, quantified=False):
        self.quantified = quantified
        self.hooks = {}
        self.schemas = {}           # cls -> KObj
        self.loop_invs = []
        self.axioms = []
        self.fact_asts = {}         # definitional facts assumed (kept alive, so that their ids stay theirs)
        self.results = {}           # obligation name -> record
        self.notes = []
        self.functions = {}         # functions interpreted: qualified name -> times
        self.contracts_used = {}
        self.paths = 0
        self.covers = {}
        self.deadline = None
        self.seq_templates = []
        self.state_reads = None
        self.cross_budget, self.cross_seen = 0, 0
        self.cross_result = {"checked": 0, "agreed": 0, "unknown": 0, "disagreed": 0}

    # -- a path ---------------------------------------------------------------------------------

    def reset(self, prefix):
        self.solver = z3.Solver()
        self.solver.set("timeout", self.feas_ms)
        if self.quantified:
            self.solver.set("smt.mbqi", False)
            self.solver.set("auto_config", False)
        for a in self.axioms:
            self.solver.add(a)
        self.prefix, self.pos, self.trace, self.alts = prefix, 0, [], []
        self.pc = []
        self.nfresh = 0
        self.objs = []
        self.frames = []
        self.heap = {}
        self.heap0 = {}
        self.next_addr = 1
        self.obj_ids = {}
        self.obj_rev = {}
        self.jover = {}
        self.jmut = []
        self.tags = {}
        self.depth = 0
        self.nest = 0
        self.ghost = {}
        self.facts_done = set()

    def explore(self, fn):
        """Run fn on every path."""
        stack = [[]]
        self.paths = 0
        while stack:
            prefix = stack.pop()
            self.paths += 1
            if self.paths > self.max_paths:
                raise Unsupported(f"more than {self.max_paths} paths")
            if self.deadline and time.time() > self.deadline:
                raise Unsupported("time budget of the task exhausted")
            self.reset(prefix)
            try:
                fn()
            except PathEnd:
                pass
            except PyRaise as e:
                raise Unsupported(f"contract code: uncaught {e.exc}")
            except Unsupported as e:
                if self.check() != z3.unsat:
                    raise
            stack.extend(self.alts)

    # -- solver ----------------------------------------------------------------------------------

    def check(self, *fs):
        t0 = time.time()
        r = self.solver.check(*[Z(f) for f in fs])
        dt = time.time() - t0
        STATS["checks"] += 1
        STATS["time"] += dt
        STATS["max"] = max(STATS["max"], dt)
        return r

    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise PathEnd()
        self.pc.append(c)
        self.solver.add(c)

    def branch(self, c):
        """Take a decision on a condition; both outcomes get explored."""
        if isinstance(c, bool):
            return c
        s = z3.simplify(c)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
        else:
            t = self.check(c) != z3.unsat
            f = self.check(z3.Not(c)) != z3.unsat
            if t and f:
                self.alts.append(self.trace + [False])
                d = True
            elif t:
                d = True
            elif f:
                d = False
            else:
                raise PathEnd()
            self.pos += 1
            self.prefix = self.prefix + [d]
        self.trace.append(d)
        self.assume(c if d else z3.Not(c))
        return d

    def choose(self, n):
        if n == 1:
            return 0
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            d = 0
            for i in range(1, n):
                self.alts.append(self.trace + [i])
            self.prefix = self.prefix + [d]
        self.pos += 1
        self.trace.append(d)
        return d

    def entails(self, c):
        if isinstance(c, bool):
            return c
        s = z3.simplify(c)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        return self.check(z3.Not(c)) == z3.unsat

    def fresh(self, name, sort=I):
        self.nfresh += 1
        return z3.Const(f"{name}!{self.nfresh}", sort)

    def apx(self, name, sort=I):
        """An unknown about which the verifier assumes nothing although Python would."""
        self.nfresh += 1
        return z3.Const(f"apx_{name}!{self.nfresh}", sort)

    # -- obligations -----------------------------------------------------------------------------

    def record(self, name):
        return self.results.setdefault(name, {"vcs": 0, "discharged": 0, "trivial": 0, "failed": [], "time": 0.0})

    def prove(self, name, f, lemma=False, info=None):
        rec = self.record(name)
        rec["vcs"] += 1
        if f is not True and f is not False:
            s = z3.simplify(f)
            if z3.is_true(s):
                f = True
        if f is True:
            rec["discharged"] += 1
            rec["trivial"] += 1
            return True
        t0 = time.time()
        goal = z3.Not(Z(f))
        r, model, why = self.decide(goal)
        rec["time"] += time.time() - t0
        if r == z3.unsat:
            rec["discharged"] += 1
            if self.cross_budget:
                self.cross_check(goal)
            return True
        if len(rec["failed"]) < 5:
            approx = self.approximate(f)
            status = "undecided" if lemma or approx else ("refuted" if r == z3.sat else
                                                          "saturated" if "incomplete" in why else "undecided")
            ints = []
            if model is not None:
                for d in model.decls():
                    v = model[d]
                    if z3.is_int_value(v):
                        ints.append(v.as_long())
            rec["failed"].append({"obligation": name, "status": status, "lemma": lemma, "approximate": approx,
                                  "reason": why, "goal": str(f)[:2000],
                                  "path": [str(c)[:300] for c in self.pc][-40:],
                                  "model": str(model)[:3000] if model is not None else None,
                                  "ints": ints[:60], "info": str(info)[:1500] if info is not None else None})
        return False

    def cross_check(self, goal):
        """Give a discharged verification condition to cvc5 as well."""
        self.cross_seen += 1
        if self.cross_seen & (self.cross_seen - 1) and self.cross_seen % 37:    # spread over the task
            return
        self.cross_budget -= 1
        import subprocess
        import tempfile
        s = z3.Solver()
        s.add(*self.solver.assertions())
        s.add(goal)
        text = "(set-logic ALL)\n" + s.to_smt2()
        self.cross_result["checked"] += 1
        with tempfile.NamedTemporaryFile("w", suffix=".smt2") as f:
            f.write(text)
            f.flush()
            try:
                out = subprocess.run(["cvc5", "--arrays-exp", "--tlimit=10000", f.name], capture_output=True, text=True, timeout=20).stdout
            except (OSError, subprocess.TimeoutExpired):
                out = ""
        word = (out.split() or [""])[0]
        self.cross_result[{"unsat": "agreed", "sat": "disagreed"}.get(word, "unknown")] += 1

    def decide(self, goal):
        s = self.solver
        s.push()
        s.set("timeout", self.prove_ms)
        s.add(goal)
        t0 = time.time()
        r = s.check()
        why = "" if r != z3.unknown else s.reason_unknown()
        model = None
        if r != z3.unsat:
            try:
                model = s.model()
            except z3.Z3Exception:
                pass
        s.pop()
        s.set("timeout", self.feas_ms)
        STATS["checks"] += 1
        dt = time.time() - t0
        STATS["time"] += dt
        STATS["max"] = max(STATS["max"], dt)
        if r == z3.unknown:
            s2 = z3.Solver()
            s2.set("timeout", self.prove_ms)
            s2.add(*s.assertions())
            s2.add(goal)
            t0 = time.time()
            r2 = s2.check()
            STATS["checks"] += 1
            STATS["time"] += time.time() - t0
            if r2 == z3.unsat:
                return r2, None, ""
            if r2 == z3.sat:
                return r2, s2.model(), ""
        return r, model, why

    def approximate(self, f):
        """Does a counterexample to f on this path depend on unknowns about which less is assumed than Python guarantees?

        Such unknowns in definitional facts alone do no harm: then the path was not chosen by them, and unless the goal is
        about them (reached from it through shared constants) the counterexample leaves them free.
        """
        def apx(names):
            return any(n.startswith("apx") for n in names)
        goal = set() if isinstance(f, bool) else set(names_of(f))
        if apx(goal):
            return True
        rest, about = [], []
        for c in self.pc:
            n = names_of(c)
            if not apx(n):
                rest.append(constants_of(c))
            elif c.get_id() in self.fact_asts:
                about.append(constants_of(c))
            else:
                return True
        if about:
            reach = set() if isinstance(f, bool) else set(constants_of(f))
            grown = True
            while grown:
                grown = False
                for n in rest + about:
                    if n & reach and not n <= reach:
                        reach |= n
                        grown = True
            return any(n & reach for n in about)
        return False

    def fail(self, name, info=None):
        """This point must not be reached."""
        return self.prove(name, False, info=info)

    def cover(self, name):
        """This point must be reachable (guards against vacuous contracts)."""
        if self.covers.get(name):
            return
        r = self.check()
        self.covers[name] = self.covers.get(name, False) or r == z3.sat or (self.quantified and r == z3.unknown)

    # -- state: snapshots ------------------------------------------------------------------------

    def track(self, o):
        self.objs.append(o)
        return o

    def snapshot(self):
        return {"objs": [(o, o.content()) for o in self.objs],
                "frames": [(f, dict(f.locals), f.exc) for f in self.frames],
                "heap": dict(self.heap), "jover": {k: list(v) for k, v in self.jover.items()},
                "jmut": list(self.jmut), "tags": dict(self.tags), "ghost": dict(self.ghost), "depth": self.depth,
                "nframes": len(self.frames), "next_addr": self.next_addr, "npc": len(self.pc),
                "facts": set(self.facts_done), "nobjs": len(self.objs)}

    def restore(self, s):
        for o, c in s["objs"]:
            o.restore(c)
        del self.frames[s["nframes"]:]
        for f, loc, exc in s["frames"]:
            f.locals.clear()
            f.locals.update(loc)
            f.exc = exc
        self.heap = dict(s["heap"])
        self.jover = {k: list(v) for k, v in s["jover"].items()}
        self.jmut = list(s["jmut"])
        self.tags = dict(s["tags"])
        self.ghost = dict(s["ghost"])
        self.depth = s["depth"]
        self.next_addr = s["next_addr"]
        self.facts_done = set(s["facts"])
        del self.pc[s["npc"]:]
        del self.objs[s["nobjs"]:]

    def effects(self, s, skip=()):
        """What changed since the snapshot: list of (what, key)."""
        out = []
        for o, c in s["objs"]:
            n = o.content()
            if not same(n, c):
                out.append(("obj", o))
        for f, loc, _ in s["frames"]:
            for k in set(f.locals) | set(loc):
                if f is s["frames"][-1][0] and k in skip:
                    continue
                if k not in loc or k not in f.locals or not same(loc[k], f.locals[k]):
                    out.append(("local", (f, k)))
        for k in self.heap:
            if k not in s["heap"]:
                if not self.heap[k].eq(self.heap0[k]):
                    out.append(("heap", k))
            elif not self.heap[k].eq(s["heap"][k]):
                out.append(("heap", k))
        if {k: v for k, v in self.jover.items() if v} != {k: v for k, v in s["jover"].items() if v}:
            out.append(("input", None))
        for k in set(self.ghost) | set(s["ghost"]):
            if k not in self.ghost or k not in s["ghost"] or not same(self.ghost[k], s["ghost"][k]):
                out.append(("ghost", k))
        return out

    def nested(self, thunk, limit=400, skip=()):
        """Explore thunk from the present state on all its paths, then come back to the present state."""
        snap = self.snapshot()
        saved = (self.prefix, self.pos, self.trace, self.alts)
        stack, outcomes, n = [[]], [], 0
        self.nest += 1
        nf = self.nfresh
        try:
            while stack:
                n += 1
                if n > limit:
                    raise Unsupported("too many paths in a loop body")
                self.prefix, self.pos, self.trace, self.alts = stack.pop(), 0, [], []
                self.solver.push()
                npc = len(self.pc)
                o = None
                try:
                    v = thunk()
                    o = Outcome("normal", [], v)
                except Continue:
                    o = Outcome("normal", [])
                except Break:
                    o = Outcome("break", [])
                except Return as r:
                    o = Outcome("return", [], r.value)
                except PyRaise as r:
                    o = Outcome("raise", [], r.exc)
                except PathEnd:
                    pass
                except Unsupported:
                    if self.check() != z3.unsat:
                        raise
                finally:
                    if o is not None:
                        o.pc = list(self.pc[npc:])
                        o.effects = self.effects(snap, skip)
                        o.state = [(x, x.content()) for x, _ in snap["objs"]]
                    self.solver.pop()
                    stack.extend(self.alts)
                    self.restore(snap)
                if o is not None:
                    o.fresh_from = nf
                    outcomes.append(o)
        finally:
            self.nest -= 1
            self.prefix, self.pos, self.trace, self.alts = saved
        return outcomes

    # -- heap ------------------------------------------------------------------------------------

    def hget(self, key, sort):
        if key not in self.heap:
            t = z3.Const("H_" + "_".join(str(k) for k in key), sort)
            self.heap[key] = t
            self.heap0[key] = t
        return self.heap[key]

    def hpre(self, key, sort):
        self.hget(key, sort)
        return self.heap0[key]

    def has_key(self, kind):
        return ("has", kind.role), z3.ArraySort(I, z3.ArraySort(kind.key.sort, B))

    def get_key(self, kind):
        return ("get", kind.role), z3.ArraySort(I, z3.ArraySort(kind.key.sort, kind.val.sort))

    def mload(self, m):
        """(has, get) arrays of a map."""
        if isinstance(m, RootMap):
            return m.has, m.get
        return sel(self.hget(*self.has_key(m.kind)), m.addr), sel(self.hget(*self.get_key(m.kind)), m.addr)

    def mstore(self, m, has=None, get=None):
        if isinstance(m, RootMap):
            if has is not None:
                m.has = has
            if get is not None:
                m.get = get
            return
        if has is not None:
            k, s = self.has_key(m.kind)
            self.heap[k] = z3.Store(self.hget(k, s), m.addr, has)
        if get is not None:
            k, s = self.get_key(m.kind)
            self.heap[k] = z3.Store(self.hget(k, s), m.addr, get)

    def attr_key(self, kind, attr):
        return ("attr", kind.cls.__name__, attr), z3.ArraySort(I, kind.attrs[attr].sort)

    def card_facts(self, has):
        ks = has.domain()
        n = card(has)
        k = n.get_id()
        if k not in self.facts_done:
            self.facts_done.add(k)
            w = wit(has)
            self.assume(And(n >= 0, (n == 0) == (has == EMPTY(ks)), z3.Implies(n > 0, z3.Select(has, w)),
                            (n == 1) == z3.And(n > 0, has == z3.Store(EMPTY(ks), w, TRUE))))
        return n


_names_cache = {}


def names_of(t):
    """Names of all uninterpreted symbols in a term."""
    k = t.get_id()
    hit = _names_cache.get(k)
    if hit is not None and hit[0].eq(t):
        return hit[1]
    out, seen, todo = set(), set(), [t]
    while todo:
        u = todo.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if z3.is_quantifier(u):
            todo.append(u.body())
        elif z3.is_app(u):
            if u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(u.decl().name())
            todo.extend(u.children())
    _names_cache[k] = (t, out)
    return out


def constants_of(t):
    """Names of all uninterpreted constants in a term."""
    out, seen, todo = set(), set(), [t]
    while todo:
        u = todo.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if z3.is_quantifier(u):
            todo.append(u.body())
        elif z3.is_app(u):
            if u.decl().kind() == z3.Z3_OP_UNINTERPRETED and (u.num_args() == 0 or u.decl().name().startswith("apx")):
                out.add(u.decl().name())
            todo.extend(u.children())
    return out


def same(a, b):
    if a is b:
        return True
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    if type(a) is not type(b):
        return False
    if isinstance(a, (SInt, SBool, SStr, SBytes, SAny, JDict, JList, SFloor)):
        return a.t.eq(b.t)
    if isinstance(a, (GInst, HeapMap)):
        return a.addr.eq(b.addr)
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, BytesItems):
        return same(a.items, b.items)
    if isinstance(a, (int, str, bytes, float, bool, type(None))):
        return a == b
    if isinstance(a, BoundMethod):
        return same(a.self_, b.self_) and a.func is b.func
    if isinstance(a, BuiltinMethod):
        return same(a.self_, b.self_) and a.name == b.name
    return False


def subst(v, pairs):
    """Substitute terms in an engine value."""
    if isinstance(v, z3.ExprRef):
        return z3.substitute(v, *pairs)
    if isinstance(v, (SInt, SBool, SAny, JDict, JList, SFloor)):
        return type(v)(z3.substitute(v.t, *pairs))
    if isinstance(v, (SStr, SBytes)):
        return type(v)(z3.substitute(v.t, *pairs), [subst(p, pairs) for p in v.parts] if v.parts else None)
    if isinstance(v, GInst):
        return GInst(z3.substitute(v.addr, *pairs), v.kind)
    if isinstance(v, HeapMap):
        return HeapMap(z3.substitute(v.addr, *pairs), v.kind)
    if isinstance(v, tuple):
        return tuple(subst(x, pairs) for x in v)
    if isinstance(v, BytesItems):
        return BytesItems([subst(x, pairs) if isinstance(x, z3.ExprRef) else x for x in v.items])
    if isinstance(v, HObj):
        if mentions(v, [p[0] for p in pairs]):
            raise Unsupported("object depending on a loop variable")
        return v
    return v


def mentions(v, consts, seen=None):
    seen = set() if seen is None else seen
    if isinstance(v, z3.ExprRef):
        names = names_of(v)
        return any(c.decl().name() in names for c in consts)
    if isinstance(v, Sym):
        return any(mentions(getattr(v, a), consts, seen) for a in ("t", "addr", "items", "len", "arr") if hasattr(v, a))
    if isinstance(v, (tuple, list)):
        return any(mentions(x, consts, seen) for x in v)
    if isinstance(v, dict):
        return any(mentions(x, consts, seen) for x in v.values())
    if isinstance(v, HObj):
        if id(v) in seen:
            return False
        seen.add(id(v))
        return mentions(v.content(), consts, seen)
    return False
