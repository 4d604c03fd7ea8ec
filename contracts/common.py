"""Helpers shared by the contract files."""
import types as types_

import z3

from spec import wamp
from wampproto import idgen

from pyvc.terms import *
from pyvc.core import *
from pyvc.coll import MISSING
from pyvc.interp import Interp


class Task:
    """One unit of verification: a symbolic pre-state, calls of real functions, proved postconditions."""
    def __init__(self, name, fn, setup=None, quantified=False, budget=240, bounded=None, doc=None, weight=1, needs=()):
        self.name, self.fn, self.setup, self.quantified, self.budget = name, fn, setup, quantified, budget
        self.bounded, self.doc, self.weight = bounded, doc or fn.__doc__, weight
        self.needs = needs                # covers that must be reached, else the task says nothing


def task(tasks, name, **kw):
    def deco(fn):
        tasks.append(Task(name, fn, **kw))
        return fn
    return deco


def attempt(e, fn, *args, **kwargs):
    """(True, result) or (False, exception) of a call of a real function."""
    try:
        return True, e.call(fn, list(args), kwargs)
    except PyRaise as x:
        return False, x.exc


def method(e, o, name, *args, **kwargs):
    try:
        return True, e.call(e.getattr(o, name), list(args), kwargs)
    except PyRaise as x:
        return False, x.exc


def is_exc(exc, *classes):
    return issubclass(exc.cls, classes)


def req(e, x, y):
    """x == y as a term, for contract code."""
    return e.eq(x, y)


def int_in(e, name, lo=None, hi=None):
    t = z3.Int(name)
    if lo is not None:
        e.assume(t >= lo)
    if hi is not None:
        e.assume(t <= hi)
    return SInt(t)


def sstr(name):
    return SStr(z3.Int(name))


def sbytes(name):
    return SBytes(z3.Int(name))


def jdict(e, name):
    r = z3.Int(name)
    v = JDict(Val.dict(r))
    e.fact(("dcard", r), dcard(r) >= 0)
    return v


def jlist(e, name):
    r = z3.Int(name)
    e.fact(("llen", r), llen(r) >= 0)
    return JList(Val.list(r))


def maybe(e, make):
    """None or a value."""
    return None if e.choose(2) else make()


# ---- state the contracts do not speak of ----------------------------------------------------------

def assigned_outside_init(cls):
    """Names of attributes assigned or deleted in other methods than __init__ (to anything that has them)."""
    import ast, inspect, sys, textwrap
    out = set()
    tree = ast.parse(inspect.getsource(sys.modules[cls.__module__]))
    inits = {n for c in ast.walk(tree) if isinstance(c, ast.ClassDef) for f in c.body
             if isinstance(f, ast.FunctionDef) and f.name == "__init__" for n in ast.walk(f)}
    for n in ast.walk(tree):
        if isinstance(n, ast.Attribute) and not isinstance(n.ctx, ast.Load) and n not in inits:
            out.add(n.attr)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("setattr", "delattr"):
            out.add("*")
    return out


def spare(e, o, known):
    """Attributes of a new state object beyond those under contract: name -> what they are allowed to be.

    A plain value that methods assign becomes any value of its type, one that none assigns keeps its first value, and a
    generator of ids has handed out any number of them.  Whatever is proved then holds whatever these attributes are;
    `spared` checks that every operation leaves them that way."""
    out = {}
    moved = None
    for n in sorted(set(o.attrs) - set(known)):
        if moved is None:
            moved = assigned_outside_init(o.cls)
        v = e.resolve(o.attrs[n])
        if isinstance(v, HInst) and v.cls is idgen.SessionScopeIDGenerator and set(v.attrs) == {"id"}:
            if not any(v is e.resolve(o.attrs[k]) for k in o.attrs if k != n):
                t = e.apx("generator")
                e.assume(z3.And(t >= 0, t < wamp.MAX_ID))
                v.attrs["id"] = SInt(t)
            out[n] = ("is", v)
            continue
        plain = isinstance(v, (SInt, SBool, SStr, int, str, bytes, type(None), type, types_.FunctionType))
        if plain and n not in moved and "*" not in moved:
            out[n] = ("is", v)
        elif isinstance(v, (bool, SBool)):
            o.attrs[n] = SBool(e.apx("flag", B))
            out[n] = ("type", bool)
        elif isinstance(v, (int, SInt)):
            o.attrs[n] = SInt(e.apx("count"))
            out[n] = ("type", int)
        elif isinstance(v, (str, SStr)):
            o.attrs[n] = SStr(e.apx("text"))
            out[n] = ("type", str)
        else:
            raise Unsupported(f"representation of the {o.cls.__name__.lower()}: {n} is {v!r}")
    return out


def spared(e, o, known, extra):
    """The further attributes are still what `spare` let them be."""
    if set(o.attrs) != set(known) | set(extra):
        raise Unsupported(f"representation of the {o.cls.__name__.lower()}: {sorted(o.attrs)}")
    for n, (how, w) in extra.items():
        v = e.resolve(o.attrs[n])
        if not (same(v, w) if how == "is" else e.pytype(v) is w):
            raise Unsupported(f"representation of the {o.cls.__name__.lower()}: {n} becomes {v!r}")
