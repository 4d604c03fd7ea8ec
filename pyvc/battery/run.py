"""The verifier against Python itself: python3-vt -m pyvc.battery.run [names]

Three parts.  Functions of no unknowns (concrete.py) must have the one outcome they have in Python.  Functions of
one unknown value (symbolic.py), which assumptions fix to a concrete value, must have the outcome they have in
Python for that value among those the verifier considers possible: a path it leaves out would be a path on which
nothing is proved.  The same for the real code: parse of every message class and to_message, on wires of the oracle.
What the verifier refuses (Unsupported) is counted, not judged: a property that needs it is undecided.
"""
import collections
import copy
import multiprocessing
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))

import check                                # (sets the import path)
import z3

from pyvc import interp
from pyvc.battery import concrete as conc_fns, scenarios, symbolic
from pyvc.core import *
from pyvc.core import Unsupported
from pyvc.interp import Interp
from pyvc.ops import is_sym
from pyvc.terms import *

interp.EXTRA_MODULES.update((conc_fns.__name__, symbolic.__name__, scenarios.__name__))


class Skip(Exception):
    pass


def literal(e, v):
    """The Python value of a value of the engine without unknowns."""
    v = e.resolve(v)
    if isinstance(v, HList):
        return [literal(e, x) for x in v.items]
    if isinstance(v, tuple):
        return tuple(literal(e, x) for x in v)
    if isinstance(v, HDict):
        return {literal(e, k): literal(e, x) for k, x in v.entries}
    if isinstance(v, HSet):
        return {literal(e, x) for x in v.items}
    if isinstance(v, (SBool, z3.BoolRef)):
        s = z3.simplify(v.t if isinstance(v, SBool) else v)
        if z3.is_true(s) or z3.is_false(s):
            return z3.is_true(s)
        raise Skip("approximated")
    if isinstance(v, SInt):
        s = z3.simplify(v.t)
        if z3.is_int_value(s):
            return s.as_long()
        raise Skip("approximated")
    if is_sym(v):
        raise Skip("approximated")
    return v


def judge_concrete(fn, args):
    try:
        want = ("ok", fn(*copy.deepcopy(args)))
    except Exception as x:
        want = ("raise", type(x).__name__)
    e, res = Interp(), []

    def go():
        try:
            r = e.call(fn, [copy.deepcopy(a) for a in args], {})
            res.append(("ok", literal(e, r)))
        except PyRaise as x:
            res.append(("raise", x.exc.cls.__name__))
    try:
        e.explore(go)
    except (Unsupported, Skip) as x:
        return "refused", str(x)
    if len(res) == 1 and repr(res[0]) == repr(want):
        return "exact", None
    return "WRONG", f"{res[:2]} instead of {want}"


def describe(e, t, v):
    """The term t is the value v (floats: a float)."""
    if v is None:
        return t == Val.none
    if isinstance(v, bool):
        return t == Val.bool(z3.BoolVal(v))
    if isinstance(v, int):
        return t == Val.int(z3.IntVal(v))
    if isinstance(v, float):
        return Val.is_float(t)
    if isinstance(v, (str, bytes)):
        return t == (Val.str if isinstance(v, str) else Val.bytes)(lit(v))
    if isinstance(v, list):
        n = Val.lr(t)
        return z3.And(Val.is_list(t), llen(n) == len(v), *[describe(e, litem(n, z3.IntVal(i)), x) for i, x in enumerate(v)])
    if isinstance(v, dict):
        n, k = Val.dr(t), z3.Const("k!dk", Val)
        return z3.And(Val.is_dict(t), dcard(n) == len(v),
                      z3.ForAll([k], dhas(n, k) == z3.Or(*[describe(e, k, x) for x in v])),
                      *[describe(e, dget(n, e.to_any(x)), y) for x, y in v.items()])
    raise Skip(type(v).__name__)


def both(*fs):
    return z3.And(*[Z(f) for f in fs])


def equals(e, r, want):
    """The value r of the engine is want."""
    r = e.resolve(r)
    if isinstance(r, SAny):
        return describe(e, r.t, want)
    if isinstance(r, JList):
        if not isinstance(want, list):
            return FALSE
        return both(e.num(e.length(r)) == len(want),
                    *[describe(e, litem(r.r, z3.IntVal(i)), w) for i, w in enumerate(want)])
    if isinstance(r, JDict):
        if not isinstance(want, dict):
            return FALSE
        return both(*[both(e.contains(r, k), equals(e, e.index(r, k), w)) for k, w in want.items()],
                    e.num(e.length(r)) == len(want))
    if isinstance(r, HList):
        if any(isinstance(x, SymIter) for x in r.items):
            raise Skip("segment")
        if not isinstance(want, list) or len(want) != len(r.items):
            return FALSE
        return both(*[equals(e, a, b) for a, b in zip(r.items, want)])
    if isinstance(r, tuple):
        if not isinstance(want, tuple) or len(want) != len(r):
            return FALSE
        return both(*[equals(e, a, b) for a, b in zip(r, want)])
    if isinstance(r, HDict):
        if r.fwd is not None or any(isinstance(k, SymIter) for k, _ in r.entries):
            raise Skip("dict")
        if not isinstance(want, dict) or len(r.entries) != len(want):
            return FALSE
        return both(*[z3.Or(*[both(equals(e, a, k), equals(e, b, w)) for a, b in r.entries]) for k, w in want.items()])
    if isinstance(r, (SBool, z3.BoolRef)):
        t = r.t if isinstance(r, SBool) else r
        return t == z3.BoolVal(want) if isinstance(want, bool) else FALSE
    if isinstance(r, SInt):
        return r.t == want if isinstance(want, int) and not isinstance(want, bool) else FALSE
    if isinstance(r, (SStr, SBytes)):
        return r.t == lit(want) if isinstance(want, str if isinstance(r, SStr) else bytes) else FALSE
    if isinstance(r, (bool, int, str, bytes, float, type(None))):
        return z3.BoolVal(type(r) is type(want) and r == want)
    if isinstance(r, HInst):
        if not isinstance(want, r.cls) or type(want) is not r.cls:
            return FALSE
        return both(*[equals(e, v, vars(want)[k]) if k in vars(want) else FALSE for k, v in r.attrs.items()],
                    set(r.attrs) == set(vars(want)))
    raise Skip(type(r).__name__)


def judge_symbolic(fn, v):
    try:
        want = ("ok", fn(copy.deepcopy(v)))
    except Exception as x:
        want = ("raise", type(x))
    e, got = Interp(quantified=True), []

    def go():
        t = z3.Const("in", Val)
        e.assume(describe(e, t, v))
        try:
            r = e.call(fn, [SAny(t)], {})
        except PyRaise as x:
            if e.check() != z3.unsat:
                got.append((want[0] == "raise" and x.exc.cls is want[1], True, x.exc.cls.__name__))
            return
        if want[0] != "ok":
            if e.check() != z3.unsat:
                got.append((False, True, r))
            return
        f = Z(equals(e, r, want[1]))
        got.append((e.check(f) != z3.unsat, e.check(z3.Not(f)) != z3.unsat, r))
    try:
        e.explore(go)
    except (Unsupported, Skip) as x:
        return "refused", str(x)
    if not any(g[0] for g in got):
        return "WRONG", f"{got[:3]} leaves out {want}"
    return ("exact", None) if len(got) == 1 and (want[0] == "raise" or not got[0][1]) else ("covered", None)


def wires(seed, n):
    from oracle import base, messages as om
    wamp = om.wamp
    g = base.Gen(seed)
    out = []
    for m in wamp.MESSAGES:
        for k in range(n):
            w = wamp.wire_of_fields(m, om.gen_fields(g, m, None, True))
            out.append((m.name, w))
            out.extend((m.name, x) for x in g.r.sample(list(om.mutations(g, m, w)), 3))
    return out


def plain_data(v, depth=0):
    """Whether describe() reaches v."""
    if isinstance(v, (list, dict)):
        return depth < 4 and len(v) <= 8 and all(plain_data(x, depth + 1) for x in (v if isinstance(v, list) else [*v, *v.values()]))
    return v is None or type(v) in (bool, int, str, bytes)


def job(a):
    kind, name, v = a
    t = time.time()
    try:
        if kind == "concrete":
            r = judge_concrete(*next((f, args) for f, args in conc_fns.F + scenarios.F if f.__name__ == name))
        elif kind == "symbolic":
            r = judge_symbolic(getattr(symbolic, name), v)
        else:
            from wampproto import messages
            from wampproto.serializers import serializer
            r = judge_symbolic(serializer.to_message if name == "to_message" else getattr(messages, name).parse, v)
    except Exception as x:
        r = ("refused", f"{type(x).__name__}: {x}")
    return kind, name, v, r, time.time() - t


def jobs(names, seed=1, n=4):
    out = [("concrete", f.__name__, None) for f, _ in conc_fns.F + scenarios.F]
    out += [("symbolic", f.__name__, v) for f in symbolic.S for v in symbolic.VALUES]
    for name, w in wires(seed, n):
        if plain_data(w):
            out += [("real", name, w), ("real", "to_message", w)]
    return [j for j in out if not names or j[1] in names]


def run(names=(), procs=4, seed=1, n=4, verbose=False):
    """(counts per part, descriptions of what is wrong)"""
    counts, wrong = collections.Counter(), []
    with multiprocessing.Pool(procs) as p:
        for kind, name, v, (k, why), dt in p.imap_unordered(job, jobs(names, seed, n), chunksize=8):
            counts[f"{kind} {k}"] += 1
            if k == "WRONG":
                wrong.append(f"{kind} {name} {v!r}: {why}")
            if verbose and k == "refused":
                print(f"refused {kind} {name} {v!r}: {why}"[:300])
    return counts, wrong


if __name__ == "__main__":
    c, wrong = run(sys.argv[1:], 6, verbose="-v" in sys.argv)
    for w in wrong:
        print("WRONG", w[:600])
    print(dict(sorted(c.items())))
    sys.exit(1 if wrong else 0)
