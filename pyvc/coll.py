"""Collections: lookup, update, iteration."""
import types

import z3

from .terms import *
from .core import *
from .ops import concrete, plain, is_sym


class Coll:
    """Mixed into the interpreter."""

    # -- kinds: between Python values and typed terms ------------------------------------------

    def key_term(self, kind, v):
        """Term of a key, or None when a value of that type cannot equal a key of this kind."""
        v = plain(self.resolve(v))
        if kind is K_INT:
            if isinstance(v, SAny):
                v = self.narrow(v, ["int", "bool"])
                if isinstance(v, SAny):
                    if self.has_tag(v.t, "float"):
                        raise Unsupported("float key")
                    self.unhashable(v)
                    return None
            self.unhashable(v)
            return self.int_term(v)
        if kind is K_STR:
            v = self.narrow(v, ["str"])
            self.unhashable(v)
            return self.str_term(v)
        if kind is K_PAIR:
            if isinstance(v, tuple) and len(v) == 2:
                a, b = self.key_term(K_INT, v[0]), self.key_term(K_INT, v[1])
                return None if a is None or b is None else Pair.mk(a, b)
            if isinstance(v, SAny):
                raise Unsupported("unknown value as key of pairs")
            self.unhashable(v)
            return None
        if kind is K_ANY:
            return key_norm(self.to_any(v))
        raise Unsupported(f"key of kind {kind}")

    def unhashable(self, v):
        if isinstance(v, SAny):
            if self.branch(z3.Or(Val.is_list(v.t), Val.is_dict(v.t))):
                self.throw(TypeError, "unhashable type")
        elif isinstance(v, HTuple):
            raise Unsupported("hash of a tuple of unknown length")
        elif isinstance(v, (HList, JList, HDict, JDict, HSet, RootSet, RootMap, HeapMap, list, dict, set)):
            self.throw(TypeError, "unhashable type")
        elif isinstance(v, tuple):
            for x in v:
                self.unhashable(x)

    def enc_kind(self, kind, v):
        """Term of a value stored where values of a kind belong."""
        v = plain(self.resolve(v))
        if kind is K_INT:
            v2 = self.narrow(v, ["int"])
            t = self.int_term(v2) if not isinstance(v2, (bool, SBool)) else None
            if t is None:
                raise Unsupported(f"{v!r} stored where an int belongs")
            return t
        if kind is K_STR:
            t = self.str_term(self.narrow(v, ["str"]))
            if t is None:
                raise Unsupported(f"{v!r} stored where a str belongs")
            return t
        if kind is K_PAIR:
            t = self.key_term(kind, v)
            if t is None:
                raise Unsupported(f"{v!r} stored where a pair belongs")
            return t
        if kind is K_ANY:
            return self.to_any(v)
        if isinstance(kind, KObj):
            if isinstance(v, GInst) and v.kind.cls is kind.cls:
                return v.addr
            raise Unsupported(f"{v!r} stored where a {kind.cls.__name__} belongs")
        if isinstance(kind, KMap):
            if isinstance(v, HeapMap) and v.kind.role == kind.role:
                return v.addr
            if isinstance(v, dict) and not v:
                v = self.track(HDict())
            if isinstance(v, HDict):
                has = EMPTY(kind.key.sort)
                k0 = z3.Const("get0_" + kind.role, z3.ArraySort(kind.key.sort, kind.val.sort))
                get = k0
                for k, x in v.entries:
                    kt = self.key_term(kind.key, k)
                    if kt is None:
                        raise Unsupported("key of another kind")
                    has = z3.Store(has, kt, TRUE)
                    get = z3.Store(get, kt, self.enc_kind(kind.val, x))
                m = HeapMap(self.alloc(), kind)
                self.mstore(m, has, get)
                v.fwd = m
                return m.addr
            raise Unsupported(f"{v!r} stored where a dict of {kind.role} belongs")
        raise Unsupported(f"kind {kind}")

    def alloc(self):
        n = self.next_addr
        self.next_addr += 1
        return z3.IntVal(n)

    def dec_kind(self, kind, t):
        if kind is K_INT:
            return self.ival(t)
        if kind is K_STR:
            if is_num(t) and lit_value(t.as_long()) is not None:
                return lit_value(t.as_long())
            return SStr(t)
        if kind is K_PAIR:
            if z3.is_app(t) and t.decl().eq(Pair.mk):
                return (self.ival(t.arg(0)), self.ival(t.arg(1)))
            return (SInt(Pair.fst(t)), SInt(Pair.snd(t)))
        if kind is K_ANY:
            return self.from_any(t)
        if isinstance(kind, KObj):
            return GInst(t, kind)
        if isinstance(kind, KMap):
            return HeapMap(t, kind)
        raise Unsupported(f"kind {kind}")

    def map_kinds(self, m):
        return (m.key, m.val) if isinstance(m, RootMap) else (m.kind.key, m.kind.val)

    # -- lookup --------------------------------------------------------------------------------

    def no_overlay(self, v):
        if self.jover.get(v.r.get_id()):
            raise Unsupported("modified input container")

    def dict_find(self, d, k):
        """The value under k, or MISSING (branches)."""
        d = self.resolve(d)
        if isinstance(d, dict):
            if concrete(k):
                try:
                    return d[k] if k in d else MISSING
                except TypeError as e:
                    self.throw(TypeError, *e.args)
            self.unhashable(k)
            for kk, v in d.items():
                if self.branch(self.eq(kk, k)):
                    return v
            return MISSING
        if isinstance(d, HDict):
            self.unhashable(self.resolve(k))
            for kk, v in d.entries:
                if self.branch(self.eq(kk, k)):
                    return v
            return MISSING
        if isinstance(d, (RootMap, HeapMap)):
            kk, vk = self.map_kinds(d)
            t = self.key_term(kk, k)
            if t is None:
                return MISSING
            has, get = self.mload(d)
            self.note_key(d, t)
            if self.branch(sel(has, t)):
                return self.dec_kind(vk, sel(get, t))
            return MISSING
        if isinstance(d, JDict):
            self.unhashable(self.resolve(k))
            for kk, v in reversed(self.jover.get(d.r.get_id(), [])):
                if self.branch(self.eq(kk, k)):
                    return v
            kt = key_norm(self.to_any(k))
            if self.branch(dhas(d.r, kt)):
                self.fact(("dcard>0", d.r), dcard(d.r) > 0)
                return SAny(dget(d.r, kt))
            return MISSING
        raise Unsupported(f"lookup in {d!r}")

    def note_key(self, m, t):
        pass

    def dict_get(self, d, k, default=None):
        d = self.resolve(d)
        if isinstance(d, JDict) and not self.jover.get(d.r.get_id()) and concrete(k) and not isinstance(k, (list, dict)):
            dv = plain(default)
            if dv is None or isinstance(dv, (bool, int, str)):
                kt = key_norm(self.to_any(k))
                if self.nest == 0:
                    t = self.fresh("got", Val)
                    self.assume(t == z3.If(dhas(d.r, kt), dget(d.r, kt), self.to_any(dv)))
                    return SAny(t)
        v = self.dict_find(d, k)
        return default if v is MISSING else v

    def dict_has(self, d, k):
        """k in d as a term."""
        d = self.resolve(d)
        if isinstance(d, (RootMap, HeapMap)):
            kk, _ = self.map_kinds(d)
            t = self.key_term(kk, k)
            return False if t is None else sel(self.mload(d)[0], t)
        if isinstance(d, RootSet):
            t = self.key_term(d.key, k)
            return False if t is None else sel(d.has, t)
        if isinstance(d, JDict) and not self.jover.get(d.r.get_id()):
            self.unhashable(self.resolve(k))
            return dhas(d.r, key_norm(self.to_any(k)))
        if isinstance(d, HDict):
            self.unhashable(self.resolve(k))
            return Or(*[self.eq(kk, k) for kk, _ in d.entries])
        if isinstance(d, dict):
            if concrete(k):
                return k in d
            self.unhashable(self.resolve(k))
            return Or(*[self.eq(kk, k) for kk in d])
        return self.dict_find(d, k) is not MISSING

    def dict_set(self, d, k, v):
        d = self.resolve(d)
        if isinstance(d, HDict):
            self.unhashable(self.resolve(k))
            for i, (kk, _) in enumerate(d.entries):
                if self.branch(self.eq(kk, k)):
                    d.entries = d.entries[:i] + [(kk, v)] + d.entries[i + 1:]
                    return
            d.entries = d.entries + [(k, v)]
            return
        if isinstance(d, (RootMap, HeapMap)):
            kk, vk = self.map_kinds(d)
            t = self.key_term(kk, k)
            if t is None:
                raise Unsupported(f"key {k!r} of another kind")
            vt = self.enc_kind(vk, v)
            has, get = self.mload(d)
            self.mstore(d, z3.Store(has, t, TRUE), z3.Store(get, t, vt))
            return
        if isinstance(d, JDict):
            self.unhashable(self.resolve(k))
            self.jover.setdefault(d.r.get_id(), []).append((k, v))
            if not is_copy(d):
                self.jmut.append(d.t)
            return
        raise Unsupported(f"assignment into {type(d).__name__}")

    def dict_del(self, d, k):
        """Remove k, which is known to be present."""
        d = self.resolve(d)
        if isinstance(d, HDict):
            for i, (kk, _) in enumerate(d.entries):
                if self.branch(self.eq(kk, k)):
                    d.entries = d.entries[:i] + d.entries[i + 1:]
                    return
            raise PathEnd()
        if isinstance(d, (RootMap, HeapMap)):
            kk, _ = self.map_kinds(d)
            has, _g = self.mload(d)
            self.mstore(d, z3.Store(has, self.key_term(kk, k), FALSE), None)
            return
        if isinstance(d, JDict):
            self.jover.setdefault(d.r.get_id(), []).append((k, MISSING))
            if not is_copy(d):
                self.jmut.append(d.t)
            return
        raise Unsupported(f"deletion from {type(d).__name__}")

    def dict_copy(self, d):
        d = self.resolve(d)
        if isinstance(d, HDict):
            return self.track(HDict(list(d.entries)))
        if isinstance(d, dict):
            return self.track(HDict(list(d.items())))
        if isinstance(d, JDict):
            # equal contents under another name; what is done to the copy is noted under that name
            new = JDict(Val.dict(self.fresh(COPY)))
            self.assume(new.r == d.r)
            if self.jover.get(d.r.get_id()):
                self.jover[new.r.get_id()] = list(self.jover[d.r.get_id()])
            return new
        if isinstance(d, (RootMap, HeapMap)):
            k, v = self.map_kinds(d)
            has, get = self.mload(d)
            return self.track(RootMap("copy", k, v, has, get))
        raise Unsupported(f"copy of {type(d).__name__}")

    def dict_update(self, d, o):
        o = self.resolve(o)
        if isinstance(o, (HDict, dict)):
            for k, v in list(o.entries if isinstance(o, HDict) else o.items()):
                self.dict_set(d, k, v)
            return
        if isinstance(o, (HList, tuple, list)):
            for p in self.items_of(o):
                k, v = self.unpack(p, 2)
                self.dict_set(d, k, v)
            return
        if isinstance(o, JDict) and isinstance(self.resolve(d), HDict):
            c = self.resolve(d)
            new = self.dict_copy(o)
            for k, v in c.entries:
                if not self.branch(Z(self.dict_has(o, k))):
                    self.dict_set(new, k, v)
            c.entries, c.fwd = [], new
            return
        it = self.iterable(o) if isinstance(o, (EngineGen, ConcreteIter, DView)) else None
        if isinstance(it, list):
            for p in it:
                k, v = self.unpack(p, 2)
                self.dict_set(d, k, v)
            return
        raise Unsupported("update from a collection of unknown size")

    def contains(self, c, x):
        c = self.narrow(c, ["dict", "list", "str"])
        if isinstance(c, SAny):
            if self.has_tag(c.t, "bytes"):
                raise Unsupported("membership in bytes")
            self.throw(TypeError, "argument is not iterable")
        if isinstance(c, (HDict, RootMap, HeapMap, JDict, dict, RootSet)):
            return self.dict_has(c, x)
        if isinstance(c, DView):
            if c.kind == "keys":
                return self.dict_has(c.d, x)
            c = self.iterable(c)
        if isinstance(c, EngineGen):
            c = self.iterable(c)
        if isinstance(c, (HList, HSet, tuple, list, set, frozenset)):
            if isinstance(c, (HSet, set, frozenset)):
                self.unhashable(self.resolve(x))
            items = self.items_of(c)
            rs = []
            for y in items:
                if isinstance(y, SymIter):
                    rs.append(z3.Exists([y.x], Z(And(y.dom, self.eq(y.elem, x)))))
                else:
                    rs.append(Or(y is x or (self.identical(y, x) if not is_sym(y) else False), self.eq(y, x)))
            return Or(*rs)
        if isinstance(c, SymIter):
            return z3.Exists([c.x], Z(And(c.dom, self.eq(c.elem, x))))
        if isinstance(c, JList):
            n = self.concrete_len(c)
            return Or(*[self.eq(SAny(litem(c.r, z3.IntVal(i))), x) for i in range(n)])
        if isinstance(c, (str, SStr)):
            x = plain(self.narrow(x, ["str"]))
            if not isinstance(x, (str, SStr)):
                self.throw(TypeError, "requires string as left operand")
            if isinstance(c, str) and isinstance(x, str):
                return x in c
            return z3.Function("apx_substr", I, I, B)(self.str_term(x), self.str_term(c))
        if isinstance(c, BytesItems):
            n = self.num(x)
            return Or(*[iv(y) == n for y in c.items])
        if isinstance(c, type) and issubclass(c, __import__("enum").Enum):
            return Or(*[self.eq(m, x) for m in c])
        if isinstance(c, range):
            n = self.num(x)
            if n is None:
                self.represented(x, "in")
                return False
            if c.step == 1:
                return And(n >= c.start, n < c.stop)
        if isinstance(c, (SBytes, bytes, BytesArr)) or isinstance(x, (SBytes, BytesArr)):
            raise Unsupported("membership in bytes")
        if isinstance(c, (HInst, GInst)):
            f = self.mro_lookup(self.pytype(c), "__contains__")
            if isinstance(f, types.FunctionType):
                return self.truth(self.call(f, [c, x], {}))
        if isinstance(c, ConcreteIter):
            raise Unsupported("membership in an iterator")
        self.throw(TypeError, "argument is not iterable")

    def length(self, v):
        v = self.narrow(v, ["list", "str", "dict", "bytes"])
        if isinstance(v, SAny):
            self.throw(TypeError, "object has no len()")
        if isinstance(v, (HList, HSet)):
            segs = [x for x in v.items if isinstance(x, SymIter)]
            if not segs:
                return len(v.items)
            if len(segs) == 1 and len(v.items) == 1 and segs[0].has is not None:
                return SInt(self.card_facts(segs[0].has))
            n = self.apx("len")
            empty = And(*[z3.ForAll([s.x], Z(Not(s.dom))) for s in segs])
            others = len(v.items) - len(segs)
            self.assume(And(n >= others, (n == others) == empty))
            return SInt(n)
        if isinstance(v, HDict):
            return len(v.entries)
        if isinstance(v, (RootMap, HeapMap)):
            return SInt(self.card_facts(self.mload(v)[0]))
        if isinstance(v, RootSet):
            return SInt(self.card_facts(v.has))
        if isinstance(v, JList):
            return SInt(llen(v.r))
        if isinstance(v, JDict):
            ov = self.jover.get(v.r.get_id(), [])
            if ov:
                raise Unsupported("size of a modified input dict")
            return SInt(dcard(v.r))
        if isinstance(v, SStr):
            if v.parts:
                n = z3.IntVal(0)
                for p in v.parts:
                    n = n + (len(p) if isinstance(p, str) else self.slen_of(p.t))
                return SInt(n)
            return SInt(self.slen_of(v.t))
        if isinstance(v, SBytes):
            self.fact(("ylen", v.t), z3.And(ylen(v.t) >= 0, (ylen(v.t) == 0) == (v.t == lit(b""))))
            return SInt(ylen(v.t))
        if isinstance(v, BytesItems):
            return len(v.items)
        if isinstance(v, BytesArr):
            return SInt(v.len)
        if isinstance(v, DView):
            return self.length(v.d)
        if isinstance(v, (HInst, GInst)):
            f = self.mro_lookup(self.pytype(v), "__len__")
            if isinstance(f, types.FunctionType):
                return self.call(f, [v], {})
            self.throw(TypeError, "object has no len()")
        if is_sym(v):
            if isinstance(v, (SInt, SBool, External)):
                self.throw(TypeError, "object has no len()")
            raise Unsupported(f"len of {type(v).__name__}")
        try:
            return len(v)
        except TypeError as e:
            self.throw(TypeError, *e.args)

    def slen_of(self, t):
        if is_num(t) and lit_value(t.as_long()) is not None:
            return z3.IntVal(len(lit_value(t.as_long())))
        self.fact(("slen", t), z3.And(slen(t) >= 0, (slen(t) == 0) == (t == lit(""))))
        return slen(t)

    def concrete_len(self, v, limit=12):
        """The length of a list of unknown contents, when the path bounds it (branches)."""
        self.no_overlay(v)
        n = llen(v.r)
        if not self.entails(n <= limit):
            raise Unsupported("list of unbounded length")
        for i in range(limit + 1):
            if self.branch(n == i):
                return i
        raise PathEnd()

    # -- indexing ------------------------------------------------------------------------------

    def index(self, v, i):
        """v[i]"""
        v = self.narrow(v, ["list", "dict", "str", "bytes"])
        i = self.resolve(i)
        if isinstance(v, SAny):
            self.throw(TypeError, "object is not subscriptable")
        if isinstance(v, (HDict, RootMap, HeapMap, JDict, dict)) and not isinstance(v, type):
            x = self.dict_find(v, i)
            if x is MISSING:
                self.throw(KeyError, i)
            return x
        if isinstance(v, (BytesArr, BytesItems, HList, JList, tuple, list, str, SStr, bytes, SBytes)):
            if isinstance(i, slice):
                return self.slice(v, i)
            if isinstance(v, (BytesArr, JList)):
                n = self.num(i)
                if n is None:
                    self.throw(TypeError, "indices must be integers")
                ln = v.len if isinstance(v, BytesArr) else llen(v.r)
                if is_num(n) and n.as_long() < 0:
                    n = ln + n
                elif not is_num(n) and self.branch(n < 0):
                    n = ln + n
                n = z3.simplify(n)
                if not self.branch(z3.And(n >= 0, n < ln)):
                    self.throw(IndexError, "index out of range")
                if isinstance(v, BytesArr):
                    b = z3.Select(v.arr, z3.simplify(v.off + n))
                    self.fact(("byte", b), z3.And(b >= 0, b <= 255))
                    return SInt(b)
                self.no_overlay(v)
                return SAny(litem(v.r, n))
            if isinstance(v, (str, SStr, SBytes)) and not (isinstance(v, str) and isinstance(i, int)):
                if isinstance(v, SStr):
                    n, ln = self.num(i), self.num(self.length(v))
                    if n is None:
                        self.throw(TypeError, "string indices must be integers")
                    if not self.branch(z3.And(n < ln, n >= -ln)):
                        self.throw(IndexError, "string index out of range")
                    return SStr(z3.Function("apx_charat", I, I, I)(v.t, n))
                raise Unsupported("index into a string")
            items = v if isinstance(v, (tuple, list, str, bytes)) else v.items
            if isinstance(v, HList) and any(isinstance(x, SymIter) for x in items):
                if isinstance(i, int) and i >= 0 and not any(isinstance(x, SymIter) for x in items[:i + 1]):
                    return items[i]
                if len(items) == 1 and i == 0:
                    if self.choose(2):
                        y = self.instance(items[0])
                        return y
                    self.assume(z3.ForAll([items[0].x], Z(Not(items[0].dom))))
                    self.throw(IndexError, "list index out of range")
                raise Unsupported("index into a list of unknown length")
            if not isinstance(i, int):
                n = self.num(i)
                if n is None:
                    self.throw(TypeError, "indices must be integers")
                for k in range(len(items)):
                    if self.branch(z3.Or(n == k, n == k - len(items))):
                        return self.elem_of(items, k)
                self.throw(IndexError, "index out of range")
            try:
                return self.elem_of(items, int(i))
            except IndexError:
                self.throw(IndexError, "index out of range")
        if isinstance(v, (HInst, GInst)):
            f = self.mro_lookup(self.pytype(v), "__getitem__")
            if isinstance(f, types.FunctionType):
                return self.call(f, [v, i], {})
            self.throw(TypeError, "object is not subscriptable")
        if is_sym(v):
            self.represented(v, "subscript")
            if isinstance(v, (SInt, SBool, HSet)):
                self.throw(TypeError, "object is not subscriptable")
            raise Unsupported(f"subscript of {type(v).__name__}")
        if concrete(i):
            try:
                return v[i]
            except Exception as e:
                self.throw(type(e), *e.args)
        raise Unsupported("subscript")

    def elem_of(self, items, i):
        x = items[i]
        return self.ival(x) if isinstance(x, z3.ExprRef) else x

    def slice(self, v, s):
        lo, hi, st = s.start, s.stop, s.step
        if st is not None and not isinstance(st, int):
            raise Unsupported("slice step")
        if isinstance(v, (str, bytes, tuple, list)) and all(x is None or isinstance(x, int) for x in (lo, hi)):
            r = v[s]
            return self.track(HList(r)) if isinstance(r, list) else r
        if isinstance(v, BytesItems) and all(x is None or isinstance(x, int) for x in (lo, hi)):
            return BytesItems(v.items[s])
        if isinstance(v, HList) and not any(isinstance(x, SymIter) for x in v.items):
            if all(x is None or isinstance(x, int) for x in (lo, hi)):
                return self.track(HList(v.items[s]))
        if isinstance(v, JList) and all(x is None or isinstance(x, int) for x in (lo, hi)):
            n = self.concrete_len(v)
            return self.track(HList([SAny(litem(v.r, z3.IntVal(i))) for i in range(n)][s]))
        if isinstance(v, BytesArr) and st in (None, 1):
            lo = 0 if lo is None else lo
            if isinstance(lo, int) and lo >= 0 and hi is None:
                n = z3.If(v.len > lo, v.len - lo, z3.IntVal(0))
                return BytesArr(z3.simplify(n), v.arr, z3.simplify(v.off + lo))
            if isinstance(lo, int) and isinstance(hi, int) and 0 <= lo <= hi:
                if self.branch(v.len >= hi):
                    return BytesItems([z3.Select(v.arr, z3.simplify(v.off + k)) for k in range(lo, hi)])
                raise Unsupported("slice beyond the end")
        if isinstance(v, SStr):
            f = z3.Function("apx_slice", I, I, I, I)
            a = z3.IntVal(-10**9) if lo is None else self.num(lo)
            b = z3.IntVal(10**9) if hi is None else self.num(hi)
            cut = self.split_at(v, lo, hi)
            if cut is not None:
                return cut
            return SStr(f(v.t, a, b))
        if isinstance(v, SBytes):
            a = z3.IntVal(-10**9) if lo is None else self.num(lo)
            b = z3.IntVal(10**9) if hi is None else self.num(hi)
            return SBytes(z3.Function("apx_yslice", I, I, I, I)(v.t, a, b))
        raise Unsupported("slice")

    def split_at(self, v, lo, hi):
        """v[:n] or v[n:] where n is the sum of lengths of leading parts."""
        if not v.parts or (lo is None) == (hi is None):
            return None
        n = self.num(hi if lo is None else lo)
        acc_ = z3.IntVal(0)
        for i, p in enumerate(v.parts):
            if self.entails(acc_ == n):
                return self.str_concat(v.parts[:i] if lo is None else v.parts[i:])
            acc_ = acc_ + (len(p) if isinstance(p, str) else self.slen_of(p.t))
        return None

    def store_index(self, v, i, x):
        v = self.narrow(v, ["dict", "list"])
        if isinstance(v, (HDict, RootMap, HeapMap, JDict)):
            return self.dict_set(v, i, x)
        if isinstance(v, HList) and isinstance(i, int) and not any(isinstance(y, SymIter) for y in v.items):
            items = list(v.items)
            try:
                items[i] = x
            except IndexError:
                self.throw(IndexError, "list assignment index out of range")
            v.items = items
            return
        if isinstance(v, (SInt, SBool, SStr, SBytes, BytesItems, str, bytes, int, type(None), tuple)):
            self.throw(TypeError, "object does not support item assignment")
        raise Unsupported(f"item assignment on {type(v).__name__}")

    def del_index(self, v, i):
        v = self.narrow(v, ["dict", "list"])
        if isinstance(v, (HDict, RootMap, HeapMap, JDict)):
            if self.dict_find(v, i) is MISSING:
                self.throw(KeyError, i)
            return self.dict_del(v, i)
        if isinstance(v, HList) and isinstance(i, int) and not any(isinstance(y, SymIter) for y in v.items):
            items = list(v.items)
            try:
                del items[i]
            except IndexError:
                self.throw(IndexError, "list assignment index out of range")
            v.items = items
            return
        raise Unsupported(f"item deletion on {type(v).__name__}")

    # -- iteration -----------------------------------------------------------------------------

    def items_of(self, v):
        """Elements of a sequence or set with contents held by the engine."""
        v = self.resolve(v)
        if isinstance(v, (HList, HSet)):
            return v.items
        if isinstance(v, JList):
            n = self.concrete_len(v)
            return [SAny(litem(v.r, z3.IntVal(i))) for i in range(n)]
        return list(v)

    def map_iter(self, m, kind):
        kk, vk = self.map_kinds(m)
        has, get = self.mload(m)
        x = self.fresh("k", kk.sort)
        key, val = self.dec_kind(kk, x), self.dec_kind(vk, sel(get, x))
        elem = {"keys": key, "values": val, "items": (key, val)}[kind]
        return SymIter(x, z3.Select(has, x), elem, live=m, src=m, has=has)

    def one_segment(self, items):
        """Segments of one filtered collection (told apart only by which condition let an element in), as one."""
        s = items[0]
        if not all(isinstance(t, SymIter) and t.x.eq(s.x) and t.src is s.src and same(t.elem, s.elem) for t in items):
            raise Unsupported("iteration over a list of partly unknown contents")
        if len(items) == 1:
            return s
        if any(self.check(Z(t.dom), Z(u.dom)) != z3.unsat for i, t in enumerate(items) for u in items[:i]):
            raise Unsupported("iteration over a list that may hold elements twice")
        return SymIter(s.x, Or(*[Z(t.dom) for t in items]), s.elem, None, s.src, None)

    def iterable(self, v):
        """A Python list of elements, a SymIter or a SeqIter."""
        v = self.narrow(v, ["list", "dict", "str"])
        if isinstance(v, SAny):
            if self.has_tag(v.t, "bytes"):
                raise Unsupported("iteration over unknown bytes")
            self.throw(TypeError, "object is not iterable")
        if isinstance(v, (SymIter, SeqIter)):
            return v
        if isinstance(v, (HList, HSet)):
            if any(isinstance(x, SymIter) for x in v.items):
                s = self.one_segment(v.items)
                return SymIter(s.x, s.dom, s.elem, None, s.src, s.has)
            return list(v.items)
        if isinstance(v, HDict):
            return [k for k, _ in v.entries]
        if isinstance(v, (RootMap, HeapMap)):
            return self.map_iter(v, "keys")
        if isinstance(v, RootSet):
            x = self.fresh("k", v.key.sort)
            return SymIter(x, z3.Select(v.has, x), self.dec_kind(v.key, x), live=v, src=v, has=v.has)
        if isinstance(v, DView):
            d = self.resolve(v.d)
            if isinstance(d, (RootMap, HeapMap)):
                return self.map_iter(d, v.kind)
            if isinstance(d, (HDict, dict)):
                es = d.entries if isinstance(d, HDict) else list(d.items())
                return [k if v.kind == "keys" else x if v.kind == "values" else (k, x) for k, x in es]
            if isinstance(d, JDict):
                return self.jdict_iter(d, v.kind)
            raise Unsupported("view")
        if isinstance(v, JDict):
            return self.jdict_iter(v, "keys")
        if isinstance(v, JList):
            self.no_overlay(v)
            i = self.fresh("i")
            return SeqIter(i, llen(v.r), SAny(litem(v.r, i)))
        if isinstance(v, BytesItems):
            return [self.ival(iv(x)) for x in v.items]
        if isinstance(v, BytesArr):
            i = self.fresh("i")
            return SeqIter(i, v.len, SInt(z3.Select(v.arr, z3.simplify(v.off + i))))
        if isinstance(v, EngineGen):
            return self.comp_iter(v.node, v.frame, v.first)
        if isinstance(v, ConcreteIter):
            r = v.items[v.pos:] if isinstance(v.items, list) else v.items
            v.pos = len(v.items) if isinstance(v.items, list) else 1
            return r
        if isinstance(v, (SStr, SBytes)):
            raise Unsupported("iteration over an unknown string")
        if isinstance(v, (HInst, GInst, External, SInt, SBool, BoundMethod, EngineFunc)):
            if isinstance(v, HInst):
                f = self.mro_lookup(v.cls, "__iter__") or self.mro_lookup(v.cls, "__getitem__")
                if f is not None:
                    raise Unsupported("user-defined iterator")
            self.throw(TypeError, "object is not iterable")
        if is_sym(v):
            raise Unsupported(f"iteration over {type(v).__name__}")
        try:
            return list(v)
        except TypeError as e:
            self.throw(TypeError, *e.args)

    def jdict_iter(self, d, kind):
        self.no_overlay(d)
        w = z3.Function("dwit", I, Val)(d.r)
        self.fact(("dwit", d.r), z3.Implies(dcard(d.r) > 0, dhas(d.r, w)))
        x = self.fresh("k", Val)
        # keys of a dict are hashable
        self.fact(("dkeys", d.r), z3.ForAll([x], z3.Implies(dhas(d.r, x), z3.Not(z3.Or(Val.is_list(x), Val.is_dict(x)))),
                                            patterns=[dhas(d.r, x)]))
        key, val = SAny(x), SAny(dget(d.r, x))
        dom = dhas(d.r, x)
        return SymIter(x, dom, {"keys": key, "values": val, "items": (key, val)}[kind], None, d, None)

    def instance(self, it, name="k"):
        """An arbitrary element of a SymIter (assumes there is one)."""
        y = self.fresh(name, it.x.sort())
        self.assume(z3.substitute(Z(it.dom), (it.x, y)))
        self.last_instance = y
        return subst(it.elem, [(it.x, y)])

    def unpack(self, v, n):
        v = self.narrow(v, ["list"])
        if isinstance(v, BytesArr):
            if not self.branch(v.len == n):
                self.throw(ValueError, "values to unpack")
            return [self.index(v, i) for i in range(n)]
        if isinstance(v, JList):
            self.no_overlay(v)
            if not self.branch(llen(v.r) == n):
                self.throw(ValueError, "values to unpack")
            return [SAny(litem(v.r, z3.IntVal(i))) for i in range(n)]
        items = self.iterable(v)
        if not isinstance(items, list):
            raise Unsupported("unpacking a collection of unknown size")
        if len(items) != n:
            self.throw(ValueError, "not enough values to unpack" if len(items) < n else "too many values to unpack")
        return items

    # -- sets ----------------------------------------------------------------------------------

    def make_set(self, items):
        s = self.track(HSet())
        for x in items:
            self.set_add(s, x)
        return s

    def set_add(self, s, x):
        if isinstance(s, RootSet):
            t = self.key_term(s.key, x)
            if t is None:
                raise Unsupported("element of another kind")
            s.has = z3.Store(s.has, t, TRUE)
            return
        self.unhashable(self.resolve(x))
        for y in s.items:
            if isinstance(y, SymIter):
                raise Unsupported("set of unknown contents")
            if self.branch(self.eq(x, y)):
                return
        s.items = s.items + [x]

    def set_remove(self, s, x):
        """Remove x; returns False when it is not there."""
        if isinstance(s, RootSet):
            t = self.key_term(s.key, x)
            if t is None or not self.branch(sel(s.has, t)):
                return False
            s.has = z3.Store(s.has, t, FALSE)
            return True
        for i, y in enumerate(s.items):
            if isinstance(y, SymIter):
                raise Unsupported("set of unknown contents")
            if self.branch(self.eq(x, y)):
                s.items = s.items[:i] + s.items[i + 1:]
                return True
        return False

    def set_binop(self, op, a, b):
        x, y = self.iterable(a), self.iterable(b)
        if not isinstance(x, list) or not isinstance(y, list):
            raise Unsupported("operation on sets of unknown size")
        r = self.track(HSet())
        if op == "BitOr":
            for e in x + y:
                self.set_add(r, e)
            return r
        for e in x:
            inb = self.branch(Or(*[self.eq(e, f) for f in y]))
            if inb == (op == "BitAnd"):
                self.set_add(r, e)
        if op == "BitXor":
            raise Unsupported("set xor")
        return r
