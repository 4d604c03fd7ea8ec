"""The verifier on functions whose truth is known; run before every check."""
import z3

from .terms import *
from .core import *


def right_max(a, b):
    return a if a > b else b


def wrong_max(a, b):
    return a if a > b + 1 else b


def right_clamp(xs):
    for x in xs:
        if not isinstance(x, str):
            raise ValueError("x")
    return xs


def wrong_clamp(xs):
    for x in xs:
        if isinstance(x, int):
            raise ValueError("x")
    return xs


def right_shape(v):
    if not isinstance(v, list) or len(v) < 1:
        raise ValueError("x")
    return v[0]


def wrong_shape(v):
    if len(v) < 1:
        raise ValueError("x")
    return v[0]


def run():
    """None, or what is wrong with the verifier."""
    from .interp import Interp
    from . import interp
    interp.EXTRA_MODULES.add(__name__)
    try:
        for fn, good in ((right_max, True), (wrong_max, False)):
            e = Interp()

            def t(fn=fn, e=e):
                a, b = z3.Ints("a b")
                r = e.call(fn, [SInt(a), SInt(b)], {})
                e.cover("max")
                e.prove("max", z3.And(e.num(r) >= a, e.num(r) >= b))
            e.explore(t)
            bad = judge(e, "max", good)
            if bad:
                return bad
        for fn, good in ((right_clamp, True), (wrong_clamp, False)):
            e = Interp(quantified=True)

            def t(fn=fn, e=e):
                r = z3.Int("r")
                e.assume(llen(r) >= 0)
                try:
                    e.call(fn, [JList(Val.list(r))], {})
                except PyRaise:
                    return
                i = z3.Int("i")
                e.cover("all strings")
                e.assume(z3.And(i >= 0, i < llen(r)))
                e.prove("all strings", Val.is_str(litem(r, i)))
            e.explore(t)
            bad = judge(e, "all strings", good)
            if bad:
                return bad
        for fn, good in ((right_shape, True), (wrong_shape, False)):
            e = Interp()

            def t(fn=fn, e=e):
                v = z3.Const("v", Val)
                try:
                    e.call(fn, [SAny(v)], {})
                    e.cover("only ValueError")
                except PyRaise as x:
                    e.prove("only ValueError", x.exc.cls is ValueError)
            try:
                e.explore(t)
            except Unsupported:
                if good:
                    return "shape: unsupported"
                continue
            bad = judge(e, "only ValueError", good)
            if bad:
                return bad
    finally:
        interp.EXTRA_MODULES.discard(__name__)
    return None


def judge(e, name, good):
    r = e.results.get(name)
    if not r or not r["vcs"]:
        return f"{name}: no obligation"
    if not e.covers.get(name):
        return f"{name}: not reachable"
    proved = r["vcs"] == r["discharged"]
    return None if proved == good else f"{name}: {'rejected' if good else 'accepted'}"
