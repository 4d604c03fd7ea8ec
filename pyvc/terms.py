"""Sorts, terms and symbolic values of the verifier.

Strings and byte strings are identified with integers: every literal gets its own numeral, every
unknown string is an integer term, operations on strings are uninterpreted functions.  Python
integers are mathematical integers (Python integers do not overflow, so nothing is lost).
"""
import z3

I = z3.IntSort()
B = z3.BoolSort()

# a value of unknown type, as a decoder or a user may hand it in
_d = z3.Datatype("Val")
_d.declare("none")
_d.declare("bool", ("bv", B))
_d.declare("int", ("iv", I))
_d.declare("float", ("fv", I))
_d.declare("str", ("sv", I))
_d.declare("bytes", ("yv", I))
_d.declare("list", ("lr", I))
_d.declare("dict", ("dr", I))
_d.declare("obj", ("orf", I))
_d.declare("opq", ("oq", I))
Val = _d.create()

_p = z3.Datatype("Pair")
_p.declare("mk", ("fst", I), ("snd", I))
Pair = _p.create()

TAGS = ["none", "bool", "int", "float", "str", "bytes", "list", "dict", "obj", "opq"]
IS = {t: getattr(Val, "is_" + t) for t in TAGS}
ACC = {"bool": Val.bv, "int": Val.iv, "float": Val.fv, "str": Val.sv, "bytes": Val.yv, "list": Val.lr,
       "dict": Val.dr, "obj": Val.orf, "opq": Val.oq}
CON = {t: getattr(Val, t) for t in TAGS}
_con_ids = {(CON[t] if t != "none" else Val.none.decl()).get_id(): t for t in TAGS}

TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)

# contents of containers of unknown origin (never mutated except through an overlay)
llen = z3.Function("llen", I, I)
litem = z3.Function("litem", I, I, Val)
dhas = z3.Function("dhas", I, Val, B)
dget = z3.Function("dget", I, Val, Val)
dcard = z3.Function("dcard", I, I)

deq = z3.Function("deq", Val, Val, B)
ftruth = z3.Function("ftruth", I, B)
feqint = z3.Function("feqint", I, I, B)
flt = z3.Function("flt", Val, Val, B)
otruth = z3.Function("otruth", I, B)
slen = z3.Function("slen", I, I)
ylen = z3.Function("ylen", I, I)
concat = z3.Function("concat", I, I, I)
yconcat = z3.Function("yconcat", I, I, I)
enc = z3.Function("enc", I, I)          # str.encode
dec = z3.Function("dec", I, I)          # bytes.decode
encodable = z3.Function("encodable", I, B)
decodable = z3.Function("decodable", I, B)
typename = z3.Function("typename", Val, I)
p2 = z3.Function("p2", I, I)            # 2**n, where n has no bound


def EMPTY(ks):
    return z3.K(ks, FALSE)


def card(has):
    return z3.Function("card_" + has.domain().name(), has.sort(), I)(has)


def wit(has):
    return z3.Function("wit_" + has.domain().name(), has.sort(), has.domain())(has)


_lits, _lit_rev = {}, {}


def lit(s):
    """The numeral standing for a str or bytes literal."""
    k = (type(s), s)
    if k not in _lits:
        n = 1000003 + 7 * len(_lits)
        _lits[k] = n
        _lit_rev[n] = s
    return z3.IntVal(_lits[k])


def lit_value(n):
    return _lit_rev.get(n)


_opq_ids, _opq_rev, _opq_keep = {}, {}, []


def opq_id(o):
    k = id(o)
    if k not in _opq_ids:
        _opq_ids[k] = 500000 + len(_opq_ids)
        _opq_rev[_opq_ids[k]] = o
        _opq_keep.append(o)
    return _opq_ids[k]


def opq_value(n):
    return _opq_rev[n]


def is_num(t):
    return z3.is_int_value(t)


def con_of(t):
    """The constructor of a Val term, when it is syntactically one."""
    if z3.is_app(t):
        return _con_ids.get(t.decl().get_id())
    return None


def distinct_terms(a, b):
    """True when a and b are syntactically known to differ."""
    if a.eq(b):
        return False
    if is_num(a) and is_num(b):
        return a.as_long() != b.as_long()
    ca, cb = con_of(a), con_of(b)
    if ca and cb:
        if ca != cb:
            return True
        return any(distinct_terms(a.arg(i), b.arg(i)) for i in range(a.num_args()))
    return False


def sel(a, i):
    """Select, with syntactic resolution through stores and constant arrays."""
    while True:
        if z3.is_store(a):
            j = a.arg(1)
            if i.eq(j):
                return a.arg(2)
            if distinct_terms(i, j):
                a = a.arg(0)
                continue
            return z3.Select(a, i)
        if z3.is_K(a):
            return a.arg(0)
        return z3.Select(a, i)


def acc(tag, t):
    if con_of(t) == tag:
        return t.arg(0)
    return ACC[tag](t)


def is_tag(tag, t):
    c = con_of(t)
    if c is not None:
        return c == tag
    return IS[tag](t)


def key_norm(t):
    """dict keys: True and 1 are the same key."""
    c = con_of(t)
    if c == "bool":
        return Val.int(z3.If(t.arg(0), z3.IntVal(1), z3.IntVal(0)))
    if c is not None:
        return t
    return z3.If(Val.is_bool(t), Val.int(z3.If(Val.bv(t), z3.IntVal(1), z3.IntVal(0))), t)


def And(*xs):
    xs = [x for x in xs if x is not True]
    if any(x is False for x in xs):
        return False
    if not xs:
        return True
    return xs[0] if len(xs) == 1 else z3.And(*xs)


def Or(*xs):
    xs = [x for x in xs if x is not False]
    if any(x is True for x in xs):
        return True
    if not xs:
        return False
    return xs[0] if len(xs) == 1 else z3.Or(*xs)


def Not(x):
    if isinstance(x, bool):
        return not x
    return z3.Not(x)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if isinstance(a, bool):
        return b if a else Not(b)
    if isinstance(b, bool):
        return a if b else Not(a)
    return a == b


def If(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    return z3.If(c, a, b)


def Z(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def iv(x):
    return z3.IntVal(x) if isinstance(x, int) else x


_consts_cache = {}


def consts_of(t):
    """Names of the uninterpreted constants in a term."""
    k = t.get_id()
    hit = _consts_cache.get(k)
    if hit is not None and hit[0].eq(t):
        return hit[1]
    out, seen, todo = set(), set(), [t]
    while todo:
        u = todo.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if z3.is_quantifier(u):
            todo.append(u.body())
        elif z3.is_app(u):
            if u.num_args() == 0 and u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(u.decl().name())
            todo.extend(u.children())
    _consts_cache[k] = (t, out)
    return out


# ---- symbolic values -------------------------------------------------------------------------

class Sym:
    __slots__ = ()


class SInt(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"SInt({self.t})"


class SBool(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"SBool({self.t})"


class SStr(Sym):
    """An unknown string; parts, if set, are the pieces it is the concatenation of."""
    __slots__ = ("t", "parts")

    def __init__(self, t, parts=None):
        self.t = t
        self.parts = parts

    def __repr__(self):
        return f"SStr({self.t})"


class SBytes(Sym):
    """An unknown byte string."""
    __slots__ = ("t", "parts")

    def __init__(self, t, parts=None):
        self.t = t
        self.parts = parts

    def __repr__(self):
        return f"SBytes({self.t})"


class BytesItems(Sym):
    """A byte string of known length: a list of int terms (or ints) in 0..255."""
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = list(items)

    def __repr__(self):
        return f"BytesItems({self.items})"


class BytesArr(Sym):
    """A byte string of unknown length: bytes arr[off], ..., arr[off+len-1]."""
    __slots__ = ("len", "arr", "off")

    def __init__(self, n, arr, off=None):
        self.len = n
        self.arr = arr
        self.off = off if off is not None else z3.IntVal(0)


class SFloor(Sym):
    """A float of which only the floor is modelled (math.log2 of an integer)."""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t


class SAny(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"SAny({self.t})"


class JDict(Sym):
    """A dict of unknown contents (t: its Val term)."""
    __slots__ = ("t", "r")

    def __init__(self, t):
        self.t = t
        self.r = acc("dict", t)

    def __repr__(self):
        return f"JDict({self.t})"


COPY = "dictcopy"
MISSING = object()


def is_copy(d):
    """Whether d is a copy the code made of a dictionary of unknown contents."""
    return z3.is_const(d.r) and d.r.decl().name().startswith(COPY + "!")


class JList(Sym):
    __slots__ = ("t", "r")

    def __init__(self, t):
        self.t = t
        self.r = acc("list", t)

    def __repr__(self):
        return f"JList({self.t})"


class SType(Sym):
    """type(x) for a value whose type is not known (or is one of several)."""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


# ---- objects with contents held by the engine ------------------------------------------------

class HObj:
    pass


class HInst(HObj):
    def __init__(self, cls, attrs=None):
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}

    def content(self):
        return dict(self.attrs)

    def restore(self, c):
        self.attrs = dict(c)

    def __repr__(self):
        return f"<{self.cls.__name__} {self.attrs}>"


class HLazy(HInst):
    """An instance of one of several classes, decided only as far as the code under verification asks."""
    def __init__(self, engine, makers):
        self.engine, self.makers, self.inst = engine, dict(makers), None

    def narrow(self, cls, exact=False):
        """isinstance(self, cls), or type(self) is cls."""
        yes = {c: m for c, m in self.makers.items() if (c is cls if exact else issubclass(c, cls))}
        if len(yes) in (0, len(self.makers)):
            return bool(yes)
        if self.engine.choose(2) == 0:
            self.makers = yes
            return True
        self.makers = {c: m for c, m in self.makers.items() if c not in yes}
        return False

    def force(self):
        if self.inst is None:
            cs = list(self.makers)
            c = cs[self.engine.choose(len(cs))]
            m = self.makers[c]
            self.makers = {c: m}
            self.inst = m()
        return self.inst

    @property
    def cls(self):
        return next(iter(self.makers)) if len(self.makers) == 1 else self.force().cls

    @property
    def attrs(self):
        return self.force().attrs

    def content(self):
        return self.makers, self.inst

    def restore(self, c):
        self.makers, self.inst = c

    def __repr__(self):
        return repr(self.inst) if self.inst is not None else "<one of " + ", ".join(c.__name__ for c in self.makers) + ">"


class HList(HObj):
    def __init__(self, items=None):
        self.items = items if items is not None else []

    def content(self):
        return list(self.items)

    def restore(self, c):
        self.items = list(c)

    def __repr__(self):
        return f"HList{self.items}"


class HTuple(HList):
    """A tuple of unknown length."""


class HDict(HObj):
    """dict with pairwise different keys, as far as the path condition tells.
    fwd: the heap map it lives in, once it was stored there."""
    def __init__(self, entries=None):
        self.entries = entries if entries is not None else []   # list of (key, value)
        self.fwd = None

    def content(self):
        return (list(self.entries), self.fwd)

    def restore(self, c):
        self.entries, self.fwd = list(c[0]), c[1]

    def __repr__(self):
        return f"HDict{self.entries}" if self.fwd is None else f"HDict->{self.fwd}"


class HSet(HObj):
    def __init__(self, items=None):
        self.items = items if items is not None else []

    def content(self):
        return list(self.items)

    def restore(self, c):
        self.items = list(c)

    def __repr__(self):
        return f"HSet{self.items}"


# ---- typed state: kinds ------------------------------------------------------------------------

class Kind:
    def __init__(self, name, sort):
        self.name, self.sort = name, sort

    def __repr__(self):
        return self.name


K_INT = Kind("int", I)
K_STR = Kind("str", I)
K_ANY = Kind("any", Val)
K_PAIR = Kind("pair", Pair)


class KObj(Kind):
    """Reference to an instance of cls, whose attributes have the given kinds."""
    def __init__(self, cls, attrs):
        super().__init__("obj:" + cls.__name__, I)
        self.cls, self.attrs = cls, attrs


class KMap(Kind):
    """Reference to a dict; all dicts of one role live in the same part of the heap."""
    def __init__(self, role, key, val):
        super().__init__("map:" + role, I)
        self.role, self.key, self.val = role, key, val


class RootMap(HObj):
    """A dict of unknown size owned by one attribute of the object under verification."""
    def __init__(self, name, key, val, has, get):
        self.name, self.key, self.val, self.has, self.get = name, key, val, has, get

    def content(self):
        return (self.has, self.get)

    def restore(self, c):
        self.has, self.get = c

    def __repr__(self):
        return f"RootMap({self.name})"


class RootSet(HObj):
    def __init__(self, name, key, has):
        self.name, self.key, self.has = name, key, has

    def content(self):
        return self.has

    def restore(self, c):
        self.has = c

    def __repr__(self):
        return f"RootSet({self.name})"


class HeapMap(Sym):
    """The dict at addr in the heap part of a role."""
    __slots__ = ("addr", "kind")

    def __init__(self, addr, kind):
        self.addr, self.kind = addr, kind

    def __repr__(self):
        return f"HeapMap({self.kind.role}@{self.addr})"


class GInst(Sym):
    __slots__ = ("addr", "kind")

    def __init__(self, addr, kind):
        self.addr, self.kind = addr, kind

    def __repr__(self):
        return f"GInst({self.kind.cls.__name__}@{self.addr})"


# ---- iteration, callables and other engine values ----------------------------------------------

class DView:
    """d.keys() / d.values() / d.items()"""
    def __init__(self, d, kind):
        self.d, self.kind = d, kind


class SymIter:
    """elem for every x with dom, in unknown order, each x once.  map: the live map iterated, if any."""
    def __init__(self, x, dom, elem, live=None, src=None, has=None):
        self.x, self.dom, self.elem, self.live, self.src, self.has = x, dom, elem, live, src, has


class SeqIter:
    """elem for i = 0 .. n-1 in order (i a constant of sort Int)."""
    def __init__(self, i, n, elem):
        self.i, self.n, self.elem = i, n, elem


class Poison:
    def __init__(self, why):
        self.why = why


class BoundMethod:
    def __init__(self, self_, func):
        self.self_, self.func = self_, func


class BuiltinMethod:
    def __init__(self, self_, name):
        self.self_, self.name = self_, name


class EngineFunc:
    def __init__(self, node, frame, defaults, kwdefaults, name):
        self.node, self.frame, self.defaults, self.kwdefaults, self.name = node, frame, defaults, kwdefaults, name


class Partial:
    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs


class EngineGen:
    """A generator expression, evaluated where it is consumed."""
    def __init__(self, node, frame, first):
        self.node, self.frame, self.first = node, frame, first


class SuperProxy:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class External:
    """An object of the environment with modelled behaviour: methods name -> f(engine, args, kwargs)."""
    def __init__(self, name, methods=None, attrs=None, cls=None):
        self.name, self.methods, self.attrs, self.cls = name, methods or {}, attrs or {}, cls

    def __repr__(self):
        return f"<ext {self.name}>"


class ConcreteIter(HObj):
    """An iterator over a known sequence (last item may be a SymIter)."""
    def __init__(self, items, src=None):
        self.items, self.pos, self.src = items, 0, src

    def content(self):
        return self.pos

    def restore(self, c):
        self.pos = c


def parts_of(v):
    """Flat list of the pieces of a string value (literal str or SStr)."""
    if isinstance(v, SStr) and v.parts:
        return list(v.parts)
    return [v]
