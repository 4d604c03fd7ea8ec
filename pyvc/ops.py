"""Semantics of Python operators on symbolic values."""
import enum
import types

import z3

from .terms import *
from .core import *


KEEP = []       # terms whose ids are in use


def plain(v):
    """Enum members that are strings or ints behave like them."""
    if isinstance(v, enum.Enum) and isinstance(v, (str, int)):
        return v.value
    return v


def is_sym(v):
    return isinstance(v, (Sym, HObj, DView, SymIter, SeqIter, EngineGen, External, BoundMethod, BuiltinMethod,
                          EngineFunc, Partial, SuperProxy, Poison))


def concrete(v):
    """True when v is a real Python value through and through."""
    if is_sym(v):
        return False
    if isinstance(v, (tuple, list, set, frozenset)):
        return all(concrete(x) for x in v)
    if isinstance(v, dict):
        return all(concrete(k) and concrete(x) for k, x in v.items())
    return True


class Ops:
    """Mixed into the interpreter."""

    # -- exceptions ----------------------------------------------------------------------------

    def exc(self, cls, *args):
        return self.track(HInst(cls, {"args": tuple(args)}))

    def throw(self, cls, *args):
        raise PyRaise(self.exc(cls, *args))

    def represented(self, v, use):
        """The contracts fix how the state is kept: code that uses it as something else keeps it otherwise."""
        if isinstance(v, (RootMap, HeapMap, RootSet)):
            raise Unsupported(f"representation: {use} of {v!r}")

    # -- types ---------------------------------------------------------------------------------

    def pytype(self, v):
        """The type of v, or None when not known."""
        v = self.resolve(v)
        if isinstance(v, SInt):
            return int
        if isinstance(v, SBool):
            return bool
        if isinstance(v, SStr):
            return str
        if isinstance(v, (SBytes, BytesItems, BytesArr)):
            return bytes
        if isinstance(v, SFloor):
            return float
        if isinstance(v, (JDict, HDict, RootMap, HeapMap)):
            return dict
        if isinstance(v, (JList, HList)):
            return tuple if isinstance(v, HTuple) else list
        if isinstance(v, (HSet, RootSet)):
            return set
        if isinstance(v, HInst):
            return v.cls
        if isinstance(v, GInst):
            return v.kind.cls
        if isinstance(v, External):
            return v.cls
        if isinstance(v, SAny):
            t = self.known_tag(v.t)
            return {"none": type(None), "bool": bool, "int": int, "float": float, "str": str, "bytes": bytes,
                    "list": list, "dict": dict}.get(t)
        if isinstance(v, (EngineFunc, BoundMethod, Partial)):
            return types.FunctionType
        if is_sym(v):
            raise Unsupported(f"type of {v!r}")
        return type(v)

    def known_tag(self, t):
        c = con_of(t)
        if c is not None:
            return c
        hit = self.tags.get(t.get_id())
        return hit[1] if hit is not None and hit[0].eq(t) else None

    def learn_tag(self, t, tag):
        self.tags[t.get_id()] = (t, tag)

    def has_tag(self, t, tag):
        """Decide (by branching) whether the value is of the tag."""
        k = self.known_tag(t)
        if k is not None:
            return k == tag
        if self.branch(IS[tag](t)):
            self.learn_tag(t, tag)
            return True
        return False

    def resolve(self, v):
        """The most specific view of a value, without branching."""
        if isinstance(v, Poison):
            raise Unsupported(f"value unknown after a loop: {v.why}")
        if isinstance(v, HDict) and v.fwd is not None:
            return v.fwd
        if isinstance(v, SAny):
            t = self.known_tag(v.t)
            if t is not None:
                return self.from_tag(v.t, t)
        if isinstance(v, SType) and isinstance(v.v, HLazy) and len(v.v.makers) == 1:
            return v.v.cls
        return v

    def from_tag(self, t, tag):
        if tag == "none":
            return None
        if tag in ("float", "opq", "obj"):
            if tag in ("obj", "opq") and con_of(t) == tag and is_num(t.arg(0)):
                n = t.arg(0).as_long()
                if tag == "opq":
                    return opq_value(n)
                if n in self.obj_rev:
                    return self.obj_rev[n]
            return SAny(t)
        a = acc(tag, t)
        if tag == "bool":
            return SBool(a) if not (z3.is_true(a) or z3.is_false(a)) else z3.is_true(a)
        if tag == "int":
            return a.as_long() if is_num(a) else SInt(a)
        if tag in ("str", "bytes"):
            if is_num(a) and lit_value(a.as_long()) is not None:
                return lit_value(a.as_long())
            return SStr(a) if tag == "str" else SBytes(a)
        if is_num(a) and a.as_long() in self.obj_rev:
            return self.obj_rev[a.as_long()]
        if tag == "list":
            v = JList(t)
            self.fact(("llen", v.r), llen(v.r) >= 0)
            return v
        v = JDict(t)
        self.fact(("dcard", v.r), dcard(v.r) >= 0)
        return v

    def fact(self, key, f):
        k = (key[0],) + tuple(x.get_id() for x in key[1:])
        if k not in self.facts_done:
            self.facts_done.add(k)
            KEEP.append(key)
            if z3.is_expr(f):
                self.fact_asts[f.get_id()] = f
            self.assume(f)

    def narrow(self, v, tags):
        """v with its tag decided among tags; None when it is of none of them."""
        v = self.resolve(v)
        if not isinstance(v, SAny):
            return v
        for t in tags:
            if self.has_tag(v.t, t):
                return self.from_tag(v.t, t)
        return v

    def to_any(self, v):
        """The Val term of a value."""
        v = plain(v)
        if isinstance(v, Poison):
            self.resolve(v)
        if isinstance(v, HDict) and v.fwd is not None:
            v = v.fwd
        if v is None:
            return Val.none
        if isinstance(v, bool):
            return Val.bool(z3.BoolVal(v))
        if isinstance(v, int):
            return Val.int(z3.IntVal(v))
        if isinstance(v, float):
            return Val.float(z3.IntVal(opq_id(v)))
        if isinstance(v, str):
            return Val.str(lit(v))
        if isinstance(v, bytes):
            return Val.bytes(lit(v))
        if isinstance(v, SInt):
            return Val.int(v.t)
        if isinstance(v, SBool):
            return Val.bool(v.t)
        if isinstance(v, SStr):
            return Val.str(v.t)
        if isinstance(v, SBytes):
            return Val.bytes(v.t)
        if isinstance(v, (SAny, JDict, JList)):
            return v.t
        if isinstance(v, (HObj, GInst, HeapMap, External, BytesItems, BytesArr, tuple, BoundMethod)):
            n = self.obj_number(v)
            if isinstance(v, HList):
                return Val.list(z3.IntVal(n))
            if isinstance(v, (HDict, RootMap, HeapMap)):
                return Val.dict(z3.IntVal(n))
            return Val.obj(z3.IntVal(n))
        if is_sym(v):
            raise Unsupported(f"storing {type(v).__name__}")
        return Val.opq(z3.IntVal(opq_id(v)))

    def obj_number(self, v):
        k = id(v)
        if k not in self.obj_ids:
            n = 900000000 + len(self.obj_ids)
            self.obj_ids[k] = n
            self.obj_rev[n] = v
        return self.obj_ids[k]

    def from_any(self, t):
        c = con_of(t)
        return SAny(t) if c is None else self.from_tag(t, c)

    # -- truth ---------------------------------------------------------------------------------

    def truth(self, v):
        """bool(v) as bool or z3 Bool."""
        v = plain(self.resolve(v))
        if isinstance(v, SBool):
            return v.t
        if isinstance(v, SInt):
            return v.t != 0
        if isinstance(v, SStr):
            return v.t != lit("")
        if isinstance(v, SBytes):
            self.length(v)                      # (only the empty bytes have length 0)
            return v.t != lit(b"")
        if isinstance(v, BytesItems):
            return len(v.items) > 0
        if isinstance(v, BytesArr):
            return v.len > 0
        if isinstance(v, (HList, HSet)):
            if any(isinstance(x, SymIter) for x in v.items):
                n = self.length(v)
                return n.t > 0 if isinstance(n, SInt) else n > 0
            return len(v.items) > 0
        if isinstance(v, HDict):
            return len(v.entries) > 0
        if isinstance(v, (RootMap, HeapMap)):
            return self.card_facts(self.mload(v)[0]) > 0
        if isinstance(v, RootSet):
            return self.card_facts(v.has) > 0
        if isinstance(v, JList):
            self.no_overlay(v)
            return llen(v.r) > 0
        if isinstance(v, JDict):
            if self.jover.get(v.r.get_id()):
                if self.jover[v.r.get_id()][-1][1] is not MISSING:
                    return True
                n = self.length(v)
                return n.t > 0 if isinstance(n, SInt) else n > 0
            return dcard(v.r) > 0
        if isinstance(v, SAny):
            t = v.t
            return z3.If(Val.is_none(t), FALSE, z3.If(Val.is_bool(t), Val.bv(t), z3.If(
                Val.is_int(t), Val.iv(t) != 0, z3.If(Val.is_str(t), Val.sv(t) != lit(""), z3.If(
                    Val.is_bytes(t), Val.yv(t) != lit(b""), z3.If(Val.is_list(t), llen(Val.lr(t)) > 0, z3.If(
                        Val.is_dict(t), dcard(Val.dr(t)) > 0, z3.If(
                            Val.is_float(t), ftruth(Val.fv(t)), z3.If(
                                Val.is_opq(t), otruth(Val.oq(t)), TRUE)))))))))
        if isinstance(v, (HInst, GInst)):
            cls = self.pytype(v)
            for m in ("__bool__", "__len__"):
                f = self.mro_lookup(cls, m)
                if f is not None and isinstance(f, types.FunctionType):
                    return self.truth(self.call(f, [v], {}))
            return True
        if isinstance(v, DView):
            return self.truth(v.d)
        if isinstance(v, (External, EngineFunc, BoundMethod, BuiltinMethod, Partial)):
            return True
        if is_sym(v):
            raise Unsupported(f"truth of {v!r}")
        return bool(v)

    def test(self, v):
        return self.branch(self.truth(v))

    def as_bool(self, t):
        """Python value of a truth term."""
        if isinstance(t, bool):
            return t
        s = z3.simplify(t)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        return SBool(t)

    # -- equality ------------------------------------------------------------------------------

    def int_term(self, v):
        """Int term of a value of type int or bool; None for others."""
        v = plain(v)
        if isinstance(v, bool):
            return z3.IntVal(int(v))
        if isinstance(v, int):
            return z3.IntVal(v)
        if isinstance(v, SInt):
            return v.t
        if isinstance(v, SBool):
            return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
        return None

    def str_term(self, v):
        v = plain(v)
        if isinstance(v, str):
            return lit(v)
        if isinstance(v, SStr):
            return v.t
        return None

    def bytes_term(self, v):
        if isinstance(v, bytes):
            return lit(v)
        if isinstance(v, SBytes):
            return v.t
        return None

    def val_eq(self, a, b):
        """a == b for two Val terms."""
        ca, cb = con_of(a), con_of(b)
        if ca and not cb:
            a, b, ca, cb = b, a, cb, ca
        if cb:
            if cb == "none":
                return is_tag("none", a)
            if cb in ("int", "bool"):
                n = b.arg(0) if cb == "int" else z3.If(b.arg(0), z3.IntVal(1), z3.IntVal(0))
                if ca:
                    if ca == "int":
                        return a.arg(0) == n
                    if ca == "bool":
                        return z3.If(a.arg(0), z3.IntVal(1), z3.IntVal(0)) == n
                    if ca == "float":
                        return feqint(a.arg(0), n)
                    return False
                return z3.If(Val.is_int(a), Val.iv(a) == n, z3.If(
                    Val.is_bool(a), z3.If(Val.bv(a), z3.IntVal(1), z3.IntVal(0)) == n,
                    z3.And(Val.is_float(a), feqint(Val.fv(a), n))))
            if cb in ("str", "bytes"):
                if ca:
                    return a.arg(0) == b.arg(0) if ca == cb else False
                return z3.And(IS[cb](a), ACC[cb](a) == b.arg(0))
        na, nb = key_norm(a), key_norm(b)
        return z3.Or(na == nb, z3.And(
            z3.Or(Val.is_list(a), Val.is_dict(a), Val.is_float(a), Val.is_opq(a), Val.is_obj(a),
                  Val.is_list(b), Val.is_dict(b), Val.is_float(b), Val.is_opq(b), Val.is_obj(b)), deq(a, b)))

    def eq(self, a, b):
        """a == b as bool or z3 Bool."""
        a, b = plain(self.resolve(a)), plain(self.resolve(b))
        if concrete(a) and concrete(b):
            return bool(a == b)
        if a is b:
            return True
        if isinstance(a, SType) or isinstance(b, SType):
            return self.identical(a, b)
        x, y = self.int_term(a), self.int_term(b)
        if x is not None and y is not None:
            return x == y
        x, y = self.str_term(a), self.str_term(b)
        if x is not None and y is not None:
            if x.eq(y):
                return True
            return x == y
        for x, o in ((a, b), (b, a)):
            if isinstance(x, BytesArr):
                if isinstance(o, (bytes, BytesItems)):
                    other = list(o) if isinstance(o, bytes) else o.items
                    return And(x.len == len(other), *[z3.Select(x.arr, z3.simplify(x.off + i)) == iv(q) for i, q in enumerate(other)])
                if isinstance(o, (BytesArr, SBytes, SAny)):
                    raise Unsupported("comparison of byte strings of different representation")
                return False
        if isinstance(a, BytesItems) or isinstance(b, BytesItems):
            if isinstance(b, BytesItems) and not isinstance(a, BytesItems):
                a, b = b, a
            if isinstance(b, (bytes, BytesItems)):
                other = list(b) if isinstance(b, bytes) else b.items
                if len(other) != len(a.items):
                    return False
                return And(*[iv(p) == iv(q) for p, q in zip(a.items, other)])
            if isinstance(b, (SBytes, BytesArr)):
                raise Unsupported("comparison of byte strings of different representation")
        x, y = self.bytes_term(a), self.bytes_term(b)
        if x is not None and y is not None:
            for v, t in ((a, x), (b, y)):
                if isinstance(v, bytes):
                    self.fact(("ylen", t), ylen(t) == len(v))
                else:
                    self.length(v)
            return x == y
        if isinstance(a, SFloor) or isinstance(b, SFloor):
            raise Unsupported("comparison of floats")
        for x in (a, b):
            if isinstance(x, JDict) and is_copy(x):
                if isinstance(a, JDict) and isinstance(b, JDict) and a.r.eq(b.r):
                    return True
                self.no_overlay(x)
        if isinstance(a, SAny) or isinstance(b, SAny):
            return self.val_eq(self.to_any(a), self.to_any(b))
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and And(*[self.eq(p, q) for p, q in zip(a, b)])
        if isinstance(a, (HList, list)) and isinstance(b, (HList, list)):
            p, q = self.items_of(a), self.items_of(b)
            if any(isinstance(x, SymIter) for x in list(p) + list(q)):
                raise Unsupported("comparison of lists of unknown length")
            return len(p) == len(q) and And(*[self.eq(x, y) for x, y in zip(p, q)])
        if isinstance(a, JList) and isinstance(b, (HList, list)) or isinstance(b, JList) and isinstance(a, (HList, list)):
            if isinstance(b, JList):
                a, b = b, a
            q = self.items_of(b)
            return And(llen(a.r) == len(q), *[self.eq(SAny(litem(a.r, z3.IntVal(i))), x) for i, x in enumerate(q)])
        if isinstance(a, (JDict, JList)) and isinstance(b, (JDict, JList)):
            if type(a) is not type(b):
                return False
            return Or(a.t == b.t, deq(a.t, b.t))
        if isinstance(a, (HDict, dict)) and isinstance(b, (HDict, dict)):
            p = a.entries if isinstance(a, HDict) else list(a.items())
            q = b.entries if isinstance(b, HDict) else list(b.items())
            if len(p) != len(q):
                return False
            return And(*[Or(*[And(self.eq(k, j), self.eq(v, w)) for j, w in q]) for k, v in p])
        if isinstance(a, JDict) and isinstance(b, (HDict, dict)) or isinstance(b, JDict) and isinstance(a, (HDict, dict)):
            if isinstance(b, JDict):
                a, b = b, a
            q = b.entries if isinstance(b, HDict) else list(b.items())
            return And(dcard(a.r) == len(q), *[And(dhas(a.r, key_norm(self.to_any(k))),
                                                    self.eq(SAny(dget(a.r, key_norm(self.to_any(k)))), v)) for k, v in q])
        if isinstance(a, GInst) and isinstance(b, GInst):
            if a.kind.cls is not b.kind.cls:
                return False
            if a.kind.cls.__eq__ is object.__eq__:
                return a.addr == b.addr
            if hasattr(a.kind.cls, "__dataclass_fields__"):
                return And(*[self.eq(self.getattr(a, n), self.getattr(b, n)) for n in a.kind.cls.__dataclass_fields__])
            raise Unsupported("user-defined equality")
        for p, q in ((a, b), (b, a)):
            if isinstance(p, HInst):
                f = self.mro_lookup(p.cls, "__eq__")
                if isinstance(f, types.FunctionType):
                    if hasattr(p.cls, "__dataclass_fields__") and f.__code__.co_filename == "<string>":
                        if not isinstance(q, HInst) or q.cls is not p.cls:
                            return False
                        return And(*[self.eq(p.attrs[n], q.attrs[n]) for n in p.cls.__dataclass_fields__])
                    return self.truth(self.call(f, [p, q], {}))
                return False
        if isinstance(a, (RootMap, HeapMap)) and isinstance(b, (RootMap, HeapMap)):
            raise Unsupported("comparison of maps")
        if isinstance(a, (RootMap, HeapMap, RootSet, HSet, DView)) or isinstance(b, (RootMap, HeapMap, RootSet, HSet, DView)):
            if isinstance(a, (HDict, dict, RootMap, HeapMap)) and isinstance(b, (HDict, dict, RootMap, HeapMap)):
                m, e = (a, b) if isinstance(a, (RootMap, HeapMap)) else (b, a)
                if self.length_concrete(e) == 0:
                    return self.card_facts(self.mload(m)[0]) == 0
            raise Unsupported("comparison of collections")
        ta, tb = self.pytype(a), self.pytype(b)
        if ta is not None and tb is not None:
            return False
        raise Unsupported(f"== of {a!r} and {b!r}")

    def length_concrete(self, v):
        n = self.length(v)
        return n if isinstance(n, int) else None

    def identical(self, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if a is None or b is None:
            o = b if a is None else a
            if o is None:
                return True
            if isinstance(o, SAny):
                return is_tag("none", o.t)
            return False
        if isinstance(a, bool) or isinstance(b, bool):
            o, c = (b, a) if isinstance(a, bool) else (a, b)
            if isinstance(o, bool):
                return o is c
            if isinstance(o, SBool):
                return o.t if c else z3.Not(o.t)
            if isinstance(o, SAny):
                return z3.And(Val.is_bool(o.t), Val.bv(o.t) == c)
            return False
        if isinstance(a, SType) or isinstance(b, SType):
            s, o = (a, b) if isinstance(a, SType) else (b, a)
            if isinstance(o, SType):
                raise Unsupported("comparison of unknown types")
            return self.exact_type(s.v, o)
        if a is b:
            return True
        if isinstance(a, (GInst, HeapMap)) and type(a) is type(b):
            if isinstance(a, HeapMap) and a.kind.role != b.kind.role:
                return False
            return a.addr == b.addr
        if any(isinstance(x, JDict) and is_copy(x) for x in (a, b)):
            return isinstance(a, JDict) and isinstance(b, JDict) and a.r.eq(b.r)
        if type(a) is object and isinstance(b, SAny) or type(b) is object and isinstance(a, SAny):
            t = a.t if isinstance(a, SAny) else b.t
            if con_of(t) is None and not (z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_SELECT)):
                return False            # a marker made by the code itself (object()) is not among what it is handed
        if isinstance(a, SAny) or isinstance(b, SAny) or isinstance(a, (JDict, JList)) and isinstance(b, (JDict, JList)):
            return self.to_any(a) == self.to_any(b)
        if isinstance(a, (HObj, External)) or isinstance(b, (HObj, External)):
            return False
        if concrete(a) and concrete(b):
            if isinstance(a, (int, str, bytes, float, tuple)) and type(a) is type(b):
                return bool(a == b)
            return a is b
        ta, tb = self.pytype(a), self.pytype(b)
        if ta is not tb:
            return False
        return self.eq(a, b)

    def exact_type(self, v, cls):
        """type(v) is cls, for a value of unknown type."""
        if isinstance(v, HLazy):
            return v.narrow(cls, exact=True)
        t = v.t
        m = {type(None): "none", bool: "bool", int: "int", float: "float", str: "str", bytes: "bytes", list: "list",
             dict: "dict"}
        if cls in m:
            return is_tag(m[cls], t)
        return self.inst_term(t, cls)

    def inst_term(self, t, cls):
        f = z3.Function("inst_" + cls.__module__ + "_" + cls.__qualname__, Val, B)
        return z3.And(z3.Or(Val.is_obj(t), Val.is_opq(t)), f(t))

    def isinstance(self, v, cls):
        v = self.resolve(v)
        if isinstance(cls, tuple):
            return Or(*[self.isinstance(v, c) for c in cls])
        if isinstance(cls, types.UnionType):
            return Or(*[self.isinstance(v, c) for c in cls.__args__])
        if cls is None:
            cls = type(None)
        if not isinstance(cls, type):
            import typing
            o = typing.get_origin(cls)
            if o is typing.Union:
                return Or(*[self.isinstance(v, c) for c in typing.get_args(cls)])
            raise Unsupported(f"isinstance with {cls!r}")
        if isinstance(v, SAny):
            t = v.t
            if cls is object:
                return True
            simple = {type(None): ["none"], bool: ["bool"], int: ["int", "bool"], float: ["float"], str: ["str"],
                      bytes: ["bytes"], list: ["list"], dict: ["dict"]}
            if cls in simple:
                return Or(*[is_tag(x, t) for x in simple[cls]])
            if cls.__module__ in ("collections.abc", "numbers", "typing"):
                hits = [x for x, c in (("none", type(None)), ("bool", bool), ("int", int), ("float", float), ("str", str),
                                       ("bytes", bytes), ("list", list), ("dict", dict)) if issubclass(c, cls)]
                return Or(*[is_tag(x, t) for x in hits])
            if cls in (bytearray, tuple, set, frozenset, complex, memoryview):
                return self.inst_term(t, cls)
            c = con_of(t)
            if c is not None and c not in ("obj", "opq"):
                return False
            return self.inst_term(t, cls)
        if isinstance(v, External) and v.cls is None:
            raise Unsupported(f"isinstance of {v!r}")
        if isinstance(v, HLazy):
            return v.narrow(cls)
        return issubclass(self.pytype(v), cls)

    # -- arithmetic -----------------------------------------------------------------------------

    def num(self, v, op="arithmetic"):
        """v as an int term or int, raising TypeError when it is not a number."""
        v = plain(self.narrow(v, ["int", "bool"]))
        if isinstance(v, SAny):
            if self.has_tag(v.t, "float"):
                raise Unsupported("arithmetic on floats")
            return None
        return self.int_term(v)

    @staticmethod
    def ival(t):
        return SInt(t) if not is_num(t) else t.as_long()

    def pow2(self, t):
        """2**t for a term t; needs bounds."""
        if is_num(t):
            return z3.IntVal(2 ** t.as_long())
        if not self.entails(z3.And(t >= 0, t <= 64)):
            if not self.entails(t >= 0):
                raise Unsupported("shift by an unbounded amount")
            t = z3.simplify(t)
            self.fact(("p2", t), z3.And(p2(t) >= 1, p2(t + 8) == 256 * p2(t), p2(z3.simplify(t + 8)) == 256 * p2(t)))
            return p2(t)
        r = z3.IntVal(2 ** 64)
        for k in range(63, -1, -1):
            r = z3.If(t == k, z3.IntVal(2 ** k), r)
        return r

    def binop(self, op, a, b):
        a, b = plain(self.resolve(a)), plain(self.resolve(b))
        if concrete(a) and concrete(b):
            try:
                return self.native_binop(op, a, b)
            except Exception as e:
                if isinstance(e, (Unsupported, PathEnd)):
                    raise
                self.throw(type(e), *e.args)
        if op == "Add":
            if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
                return self.str_concat([a, b])
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (str, SStr)) and isinstance(y, SAny):
                    y2 = self.narrow(y, ["str"])
                    if isinstance(y2, SAny):
                        self.throw(TypeError, "can only concatenate str")
                    return self.str_concat([a, y2] if x is a else [y2, b])
            if isinstance(a, HTuple) or isinstance(b, HTuple):
                raise Unsupported("a tuple of unknown length added to another")
            if isinstance(a, (HList, list)) and isinstance(b, (HList, list)):
                return self.track(HList(list(self.items_of(a)) + list(self.items_of(b))))
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, (bytes, SBytes, BytesItems)) and isinstance(b, (bytes, SBytes, BytesItems)):
                if isinstance(a, (bytes, BytesItems)) and isinstance(b, (bytes, BytesItems)):
                    return BytesItems(self.byte_items(a) + self.byte_items(b))
                if not isinstance(a, BytesItems) and not isinstance(b, BytesItems):
                    t = yconcat(self.bytes_term(a), self.bytes_term(b))
                    n = [iv(x.t if isinstance(x, SInt) else x) for x in (self.length(a), self.length(b))]
                    self.fact(("yconcat", t), z3.And(ylen(t) == n[0] + n[1], (t == lit(b"")) == (ylen(t) == 0)))
                    return SBytes(t, [a, b])
        if op == "Mod" and isinstance(a, (str, SStr)):
            if not isinstance(a, str) or not self.fits_format(a, b):
                raise Unsupported("%-formatting")
            return SStr(self.apx("fmt"))
        if op in ("Add", "Mult") and any(isinstance(x, (JList, JDict)) for x in (a, b)):
            raise Unsupported("an input list added to another")
        if op == "Mult" and (isinstance(a, (str, bytes, list, tuple, HList)) or isinstance(b, (str, bytes, list, tuple, HList))):
            if isinstance(a, HList) and isinstance(b, int):
                return self.track(HList(list(a.items) * b))
            raise Unsupported("repetition")
        if op in ("BitOr", "BitAnd", "Sub", "BitXor") and (
                isinstance(a, (HSet, RootSet, set, frozenset, DView)) or isinstance(b, (HSet, RootSet, set, frozenset, DView))):
            return self.set_binop(op, a, b)
        if op == "BitOr" and isinstance(a, (HDict, dict, JDict)) and isinstance(b, (HDict, dict, JDict)):
            d = self.dict_copy(a)
            self.dict_update(d, b)
            return d
        if isinstance(a, SFloor) or isinstance(b, SFloor):
            if isinstance(a, SFloor) and isinstance(b, int) and op in ("Add", "Sub"):
                return SFloor(a.t + b if op == "Add" else a.t - b)
            raise Unsupported("float arithmetic")
        x, y = self.num(a), self.num(b)
        if x is None or y is None:
            self.represented(a, op)
            self.represented(b, op)
            for v, w in ((a, b), (b, a)):
                if isinstance(v, SAny) and (op in ("Add", "Mult") and any(self.has_tag(v.t, t) for t in ("str", "bytes", "list"))
                                            or op == "BitOr" and self.has_tag(v.t, "dict")
                                            or op == "Mod" and v is a and any(self.has_tag(v.t, t) for t in ("str", "bytes"))):
                    if isinstance(w, (SAny, str, bytes, list, dict, HList, HDict, JList, JDict, SStr, SBytes, BytesItems)) or op == "Mod":
                        raise Unsupported(f"operator {op} on unknown values")
                    if op == "Mult" and self.num(w) is not None:
                        raise Unsupported("repetition of an unknown value")
            self.throw(TypeError, "unsupported operand type(s)")
        if op == "Add":
            return SInt(x + y)
        if op == "Sub":
            return SInt(x - y)
        if op == "Mult":
            return SInt(x * y)
        if op in ("FloorDiv", "Mod"):
            if not (is_num(y) and y.as_long() > 0):
                if self.branch(y == 0):
                    self.throw(ZeroDivisionError, "division by zero")
                if not self.branch(y > 0):
                    raise Unsupported("division by a negative number")
            return SInt(x / y) if op == "FloorDiv" else SInt(x % y)
        if op == "Pow":
            if is_num(x) and x.as_long() == 2:
                return SInt(self.pow2(y))
            if is_num(y) and 0 <= y.as_long() <= 4:
                r = z3.IntVal(1)
                for _ in range(y.as_long()):
                    r = r * x
                return SInt(r)
        if op in ("LShift", "RShift"):
            if not is_num(y) and self.branch(y < 0) or is_num(y) and y.as_long() < 0:
                self.throw(ValueError, "negative shift count")
            p = self.pow2(y)
            return SInt(x * p) if op == "LShift" else SInt(x / p)
        if op in ("BitOr", "BitAnd", "BitXor"):
            if isinstance(self.pytype(a), type) and self.pytype(a) is bool and self.pytype(b) is bool:
                p, q = x == 1, y == 1
                return SBool(z3.And(p, q) if op == "BitAnd" else z3.Or(p, q) if op == "BitOr" else z3.Xor(p, q))
            return SInt(self.bitop(op, x, y))
        raise Unsupported(f"operator {op}")

    def fits_format(self, s, b):
        """Whether s % b is sure not to fail."""
        import re
        kinds = re.findall(r"%(.)", s.replace("%%", ""))
        items = list(b) if isinstance(b, tuple) else [b]
        return len(kinds) == len(items) and all(k in "sra" or k in "dxi" and isinstance(plain(self.resolve(x)), (SInt, int))
                                                for k, x in zip(kinds, items))

    def bitop(self, op, x, y):
        if is_num(x) and not is_num(y):
            x, y = y, x
        if op == "BitAnd" and is_num(y):
            m = y.as_long()
            if m == 0:
                return z3.IntVal(0)
            if m > 0:
                lo = (m & -m).bit_length() - 1
                w = m >> lo
                if w & (w + 1) == 0:        # a run of ones
                    k = w.bit_length()
                    return ((x / (1 << lo)) % (1 << k)) * (1 << lo) if lo else x % (1 << k)
        if op in ("BitOr", "BitXor"):
            if is_num(y) and y.as_long() == 0:
                return x
            for p, q in ((x, y), (y, x)):
                for f in q.children() if z3.is_mul(q) else []:
                    if z3.is_app(f) and f.decl().eq(p2) and self.entails(z3.And(p >= 0, p < f)):
                        return p + q
            for k in (4, 8, 16, 24, 1, 2, 3, 5, 6, 7, 12, 20, 32, 48):
                for p, q in ((x, y), (y, x)):
                    if self.entails(z3.And(q >= 0, q < (1 << k), p % (1 << k) == 0)):
                        return p + q
        n = 64
        if self.entails(z3.And(x >= 0, y >= 0, x < (1 << 32), y < (1 << 32))):
            n = 32
        elif not self.entails(z3.And(x >= 0, y >= 0, x < (1 << 64), y < (1 << 64))):
            raise Unsupported("bit operation on unbounded integers")
        p, q = z3.Int2BV(x, n), z3.Int2BV(y, n)
        r = p & q if op == "BitAnd" else p | q if op == "BitOr" else p ^ q
        return z3.BV2Int(r)

    @staticmethod
    def native_binop(op, a, b):
        import operator as o
        f = {"Add": o.add, "Sub": o.sub, "Mult": o.mul, "Div": o.truediv, "FloorDiv": o.floordiv, "Mod": o.mod,
             "Pow": o.pow, "LShift": o.lshift, "RShift": o.rshift, "BitOr": o.or_, "BitAnd": o.and_,
             "BitXor": o.xor}.get(op)
        if f is None:
            raise Unsupported(f"operator {op}")
        return f(a, b)

    def has_order(self, o):
        return any(isinstance(self.mro_lookup(self.pytype(o), n), types.FunctionType) for n in ("__lt__", "__le__", "__gt__", "__ge__"))

    def compare(self, op, a, b):
        a, b = plain(self.resolve(a)), plain(self.resolve(b))
        if op == "Eq":
            return self.eq(a, b)
        if op == "NotEq":
            return Not(self.eq(a, b))
        if op == "Is":
            return self.identical(a, b)
        if op == "IsNot":
            return Not(self.identical(a, b))
        if op == "In":
            return self.contains(b, a)
        if op == "NotIn":
            return Not(self.contains(b, a))
        if concrete(a) and concrete(b):
            try:
                return {"Lt": lambda: a < b, "LtE": lambda: a <= b, "Gt": lambda: a > b, "GtE": lambda: a >= b}[op]()
            except TypeError as e:
                self.throw(TypeError, *e.args)
        if isinstance(a, SFloor) or isinstance(b, SFloor):
            raise Unsupported("float comparison")
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            return z3.Function("apx_strlt", I, I, B)(self.str_term(a), self.str_term(b))
        if isinstance(a, SAny) or isinstance(b, SAny):
            a, b = self.narrow(a, ["int", "bool"]), self.narrow(b, ["int", "bool"])
            fa = isinstance(a, SAny) and self.has_tag(a.t, "float")
            fb = isinstance(b, SAny) and self.has_tag(b.t, "float")
            if (fa or fb) and (fa or self.int_term(a) is not None) and (fb or self.int_term(b) is not None):
                return z3.Function("apx_flt_" + op, Val, Val, B)(self.to_any(a), self.to_any(b))
            if isinstance(a, SAny) or isinstance(b, SAny):
                for v, w in ((a, b), (b, a)):
                    if isinstance(v, SAny) and isinstance(w, (SAny, str, SStr, bytes, SBytes, list, HList, JList)) and any(
                            self.has_tag(v.t, t) for t in ("str", "bytes", "list")):
                        raise Unsupported("comparison of strings or lists")
                self.throw(TypeError, "not supported between instances")
        x, y = self.int_term(a), self.int_term(b)
        if x is None or y is None:
            lists = (HList, JList, list, tuple, SAny)
            if isinstance(a, lists) and isinstance(b, lists) and not (isinstance(a, SAny) and isinstance(b, SAny)):
                raise Unsupported("list comparison")
            if isinstance(a, (HSet, RootSet)) or isinstance(b, (HSet, RootSet)):
                raise Unsupported("set comparison")
            if isinstance(a, tuple) and isinstance(b, tuple):
                raise Unsupported("tuple comparison")
            if any(isinstance(o, (HInst, GInst)) and self.has_order(o) for o in (a, b)):
                raise Unsupported("comparison defined by a class")
            self.represented(a, op)
            self.represented(b, op)
            self.throw(TypeError, "not supported between instances")
        return {"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[op]

    # -- strings -------------------------------------------------------------------------------

    def str_concat(self, vals):
        parts = []
        for v in vals:
            for p in parts_of(v):
                if isinstance(p, str) and p == "":
                    continue
                if parts and isinstance(p, str) and isinstance(parts[-1], str):
                    parts[-1] = parts[-1] + p
                else:
                    parts.append(p)
        if not parts:
            return ""
        if len(parts) == 1:
            return parts[0]
        t = self.str_term(parts[-1])
        for p in reversed(parts[:-1]):
            t = concat(self.str_term(p), t)
        if any(isinstance(p, str) for p in parts):
            self.fact(("nonempty", t), t != lit(""))
        return SStr(t, parts)

    def to_str(self, v, spec=None):
        """str(v)"""
        v = plain(self.resolve(v))
        if isinstance(v, (str, SStr)):
            return v
        if isinstance(v, bool) or v is None or isinstance(v, int):
            return str(v)
        if isinstance(v, SInt):
            return SStr(z3.Function("int2str", I, I)(v.t))
        if isinstance(v, (HInst, GInst)):
            cls = self.pytype(v)
            f = self.mro_lookup(cls, "__str__")
            if isinstance(f, types.FunctionType):
                return self.call(f, [v], {})
        if concrete(v) and not isinstance(v, (types.FunctionType,)):
            return str(v)
        return SStr(self.apx("str"))

    def byte_items(self, v):
        return [z3.IntVal(x) for x in v] if isinstance(v, bytes) else [iv(x) for x in v.items]
