"""Built-in functions and methods of built-in types."""
import types

import z3

from .terms import *
from .core import *
from .ops import concrete, plain, is_sym
from .coll import MISSING

UTF8 = ("utf-8", "utf8", "UTF-8", "utf_8", "ascii", "latin-1")


class Builtins:
    """Mixed into the interpreter."""

    # -- functions ---------------------------------------------------------------------------------

    def no_kw(self, kwargs, *names):
        for k in kwargs:
            if k not in names:
                self.throw(TypeError, f"unexpected keyword argument '{k}'")

    def wrap(self, v):
        """A native value as an engine value (fresh lists, dicts and sets become engine objects)."""
        if isinstance(v, list):
            return self.track(HList([self.wrap(x) for x in v]))
        if isinstance(v, dict):
            return self.track(HDict([(k, self.wrap(x)) for k, x in v.items()]))
        if isinstance(v, set):
            return self.track(HSet(list(v)))
        if isinstance(v, tuple):
            return tuple(self.wrap(x) for x in v)
        return v

    def native(self, f, args, kwargs=None):
        try:
            return self.wrap(f(*args, **(kwargs or {})))
        except (Unsupported, PathEnd, PyRaise):
            raise
        except Exception as e:
            self.throw(type(e), *e.args)

    def bi_len(self, args, kwargs):
        return self.length(args[0])

    def bi_isinstance(self, args, kwargs):
        return self.as_bool(self.isinstance(args[0], self.class_arg(args[1])))

    def class_arg(self, c):
        c = self.resolve(c)
        if isinstance(c, HList):
            self.throw(TypeError, "isinstance() arg 2 must be a type")
        if is_sym(c):
            raise Unsupported("isinstance with an unknown class")
        return c

    def bi_issubclass(self, args, kwargs):
        if isinstance(args[0], SType):
            if isinstance(args[0].v, HLazy):
                return self.isinstance(args[0].v, args[1])
            raise Unsupported("issubclass of an unknown type")
        if not isinstance(args[0], type) or not concrete(args[1]):
            raise Unsupported("issubclass()")
        return issubclass(args[0], args[1])

    def bi_getattr(self, args, kwargs):
        if not isinstance(args[1], str):
            raise Unsupported("getattr with an unknown name")
        return self.getattr(args[0], args[1], *(args[2:3]))

    def bi_hasattr(self, args, kwargs):
        if not isinstance(args[1], str):
            raise Unsupported("hasattr with an unknown name")
        return self.getattr(args[0], args[1], default=None) is not None or self.has_none_attr(args[0], args[1])

    def has_none_attr(self, v, name):
        class _S:
            pass
        s = _S()
        return self.getattr(v, name, s) is not s

    def bi_setattr(self, args, kwargs):
        if not isinstance(args[1], str):
            raise Unsupported("setattr with an unknown name")
        self.setattr(args[0], args[1], args[2])

    def bi_callable(self, args, kwargs):
        v = self.resolve(args[0])
        if isinstance(v, (EngineFunc, BoundMethod, BuiltinMethod, Partial)):
            return True
        if is_sym(v):
            raise Unsupported("callable")
        return callable(v)

    def bi_type(self, args, kwargs):
        if len(args) != 1:
            raise Unsupported("type() with several arguments")
        v = self.resolve(args[0])
        if isinstance(v, SAny):
            t = self.pytype(v)
            return t if t is not None else SType(v)
        if isinstance(v, HLazy) and len(v.makers) > 1:
            return SType(v)
        return self.pytype(v)

    def bi_list(self, args, kwargs):
        if not args:
            return self.track(HList())
        v = self.narrow(args[0], ["list", "dict"])
        if isinstance(v, JList):
            self.no_overlay(v)
            return v        # a copy of an input list; assigning into it is not modelled
        it = self.iterable(v)
        return self.track(HList(self.segs(it)))

    def segs(self, it):
        if isinstance(it, SeqIter):
            raise Unsupported("list of unknown length")
        if isinstance(it, SymIter):
            return [SymIter(it.x, it.dom, it.elem, None, it.src, it.has)]
        return list(it)

    def bi_tuple(self, args, kwargs):
        if not args:
            return ()
        it = self.iterable(args[0])
        if not isinstance(it, list):
            return self.track(HTuple(self.segs(it)))
        return tuple(it)

    def bi_set(self, args, kwargs):
        if not args:
            return self.track(HSet())
        v = self.resolve(args[0])
        if isinstance(v, RootSet):
            return self.track(RootSet("copy", v.key, v.has))
        it = self.iterable(v)
        if isinstance(it, list):
            return self.make_set(it)
        if isinstance(it, SymIter) and it.has is not None and isinstance(it.elem, Sym):
            return self.track(HSet([SymIter(it.x, it.dom, it.elem, None, it.src, it.has)]))
        return self.track(HSet(self.segs(it)))

    bi_frozenset = bi_set

    def bi_dict(self, args, kwargs):
        if args:
            v = self.narrow(args[0], ["dict"])
            if isinstance(v, (HDict, dict, JDict, RootMap, HeapMap)):
                d = self.dict_copy(v)
            else:
                d = self.track(HDict())
                self.dict_update(d, v)
        else:
            d = self.track(HDict())
        for k, v in kwargs.items():
            self.dict_set(d, k, v)
        return d

    def bi_str(self, args, kwargs):
        if not args:
            return ""
        if len(args) > 1 or kwargs:
            return self.call_method(args[0], "decode", args[1:], kwargs)
        return self.to_str(args[0])

    def bi_repr(self, args, kwargs):
        return repr(args[0]) if concrete(args[0]) else SStr(self.apx("repr"))

    def bi_int(self, args, kwargs):
        if not args:
            return 0
        v = plain(self.narrow(args[0], ["int", "bool", "str"]))
        if concrete(v) and concrete(args[1:]):
            return self.native(int, [v] + args[1:], kwargs)
        if isinstance(v, SFloor):
            # truncation equals floor for the values modelled here only when not negative
            if not self.entails(v.t >= 0):
                if self.branch(v.t < 0):
                    raise Unsupported("int() of a negative float")
            return self.ival(v.t)
        t = self.int_term(v)
        if t is not None:
            return self.ival(t)
        if isinstance(v, SStr) and not args[1:]:
            ok = z3.Function("isnumeral", I, B)
            if not self.branch(ok(v.t)):
                self.throw(ValueError, "invalid literal for int()")
            return SInt(z3.Function("apx_str2int", I, I)(v.t))
        if isinstance(v, (JDict, JList, HDict, HList)) or v is None:
            self.throw(TypeError, "int() argument")
        raise Unsupported("int()")

    def bi_float(self, args, kwargs):
        if concrete(args):
            return self.native(float, args)
        raise Unsupported("float()")

    def bi_bool(self, args, kwargs):
        return self.as_bool(self.truth(args[0])) if args else False

    def bi_bytes(self, args, kwargs):
        if not args:
            return b""
        v = self.resolve(args[0])
        if concrete(v) and concrete(args[1:]):
            return self.native(bytes, [v] + args[1:], kwargs)
        if isinstance(v, (SBytes, BytesItems, BytesArr)):
            return v
        if isinstance(v, (str, SStr)):
            return self.call_method(v, "encode", args[1:], kwargs)
        if isinstance(v, (HList, tuple, list, EngineGen, ConcreteIter)):
            it = self.iterable(v)
            if not isinstance(it, list):
                raise Unsupported("bytes of unknown length")
            out = []
            for x in it:
                n = self.num(x)
                if n is None:
                    self.throw(TypeError, "cannot be interpreted as an integer")
                if isinstance(plain(self.resolve(x)), float):
                    self.throw(TypeError, "cannot be interpreted as an integer")
                if not self.branch(z3.And(n >= 0, n <= 255)):
                    self.throw(ValueError, "bytes must be in range(0, 256)")
                out.append(z3.simplify(n))
            if all(is_num(x) for x in out):
                return bytes(x.as_long() for x in out)
            return BytesItems(out)
        if isinstance(v, External) and getattr(v.cls, "__name__", "") in ("SigningKey", "VerifyKey"):
            return v.attrs["bytes"]
        raise Unsupported("bytes()")

    def bi_bytearray(self, args, kwargs):
        raise Unsupported("bytearray")

    def bi_any(self, args, kwargs):
        return self.quant(args[0], False)

    def bi_all(self, args, kwargs):
        return self.quant(args[0], True)

    def quant(self, src, is_all):
        self.lazy += 1
        try:
            it = self.lazy_items(src, is_all)
        finally:
            self.lazy -= 1
        if isinstance(it, bool):
            return it
        if isinstance(it, SeqIter):
            it = SymIter(it.i, z3.And(it.i >= 0, it.i < it.n), it.elem)
        segs = [it] if isinstance(it, SymIter) else it
        rs = []
        for x in segs:
            if isinstance(x, SymIter):
                t = Z(self.pure_truth(x.elem, x))
                rs.append(z3.ForAll([x.x], z3.Implies(Z(x.dom), t)) if is_all else
                          z3.Exists([x.x], z3.And(Z(x.dom), t)))
            else:
                if self.test(x) != is_all:
                    return not is_all
        r = And(*rs) if is_all else Or(*rs)
        return self.as_bool(r)

    def pure_truth(self, v, it):
        return self.truth(v)

    def lazy_items(self, src, is_all):
        """Elements of src; for a generator over known elements, evaluation stops at the deciding one."""
        src = self.resolve(src)
        if isinstance(src, EngineGen) and len(src.node.generators) == 1:
            g = src.node.generators[0]
            it = self.iterable(src.first)
            if isinstance(it, SeqIter) and self.entails(it.n <= 12):
                n = 0
                while n < 12 and not self.branch(it.n == n):
                    n += 1
                it = [subst(it.elem, [(it.i, z3.IntVal(k))]) for k in range(n)]
            if isinstance(it, list) and not any(isinstance(x, SymIter) for x in it):
                inner = Frame(None, src.frame.globals, {}, src.frame, src.frame.cls, comp=True)
                self.frames.append(inner)
                try:
                    for x in it:
                        self.assign(g.target, x, inner)
                        if all(self.test(self.eval(c, inner)) for c in g.ifs):
                            if self.test(self.eval(src.node.elt, inner)) != is_all:
                                return not is_all
                    return is_all
                finally:
                    if self.frames and self.frames[-1] is inner:
                        self.frames.pop()
            src = EngineGen(src.node, src.frame, it)
        return self.iterable(src)

    def bi_sum(self, args, kwargs):
        it = self.iterable(args[0])
        if not isinstance(it, list):
            raise Unsupported("sum over a collection of unknown size")
        r = args[1] if len(args) > 1 else kwargs.get("start", 0)
        for x in it:
            r = self.binop("Add", r, x)
        return r

    def bi_iter(self, args, kwargs):
        v = self.resolve(args[0])
        if isinstance(v, (ConcreteIter, EngineGen)):
            return v
        it = self.iterable(v)
        return self.track(ConcreteIter(it, v))

    def bi_next(self, args, kwargs):
        v = self.resolve(args[0])
        if isinstance(v, EngineGen):
            it = self.first_match(v)
            if it is MISSING:
                if len(args) > 1:
                    return args[1]
                self.throw(StopIteration)
            return it
        if isinstance(v, ConcreteIter):
            if isinstance(v.items, list):
                if v.pos < len(v.items):
                    x = v.items[v.pos]
                    if isinstance(x, SymIter):
                        raise Unsupported("next over a list of unknown contents")
                    v.pos += 1
                    return x
            elif v.pos == 0:
                x = self.pick(v.items)
                if x is not MISSING:
                    v.pos = 1
                    return x
            else:
                raise Unsupported("second next over a collection of unknown size")
            if len(args) > 1:
                return args[1]
            self.throw(StopIteration)
        if isinstance(v, External) and "__next__" in v.methods:
            return v.methods["__next__"](self, [], {})
        if isinstance(v, HInst):
            f = self.mro_lookup(v.cls, "__next__")
            if f is not None:
                return self.call(f, [v], {})
        self.throw(TypeError, "object is not an iterator")

    def pick(self, it):
        """Some element of a collection of unknown size, or MISSING when it is empty."""
        if isinstance(it, SeqIter):
            if self.branch(it.n > 0):
                return subst(it.elem, [(it.i, z3.IntVal(0))])
            return MISSING
        if self.choose(2) == 0:
            return self.instance(it)
        self.assume(z3.ForAll([it.x], Z(Not(it.dom))))
        return MISSING

    def first_match(self, gen):
        """next() of a fresh generator expression."""
        if len(gen.node.generators) == 1:
            g = gen.node.generators[0]
            it = self.iterable(gen.first)
            if isinstance(it, SeqIter):
                if not self.entails(it.n <= 12):
                    raise Unsupported("first match in a sequence of unknown length")
                n = 0
                while n < 12 and not self.branch(it.n == n):
                    n += 1
                it = [subst(it.elem, [(it.i, z3.IntVal(k))]) for k in range(n)]
            if isinstance(it, list) and not any(isinstance(x, SymIter) for x in it):
                inner = Frame(None, gen.frame.globals, {}, gen.frame, gen.frame.cls, comp=True)
                self.frames.append(inner)
                try:
                    for x in it:
                        self.assign(g.target, x, inner)
                        if all(self.test(self.eval(c, inner)) for c in g.ifs):
                            return self.eval(gen.node.elt, inner)
                    return MISSING
                finally:
                    if self.frames and self.frames[-1] is inner:
                        self.frames.pop()
            gen = EngineGen(gen.node, gen.frame, it)
        it = self.lazily(gen.node, gen.frame, gen.first)
        if not any(isinstance(x, SymIter) for x in it):
            return it[0] if it else MISSING
        k = self.choose(len(it) + 1)
        if k == len(it):
            for s in it:
                if not isinstance(s, SymIter):
                    raise PathEnd()
                self.assume(z3.ForAll([s.x], Z(Not(s.dom))))
            return MISSING
        return self.instance(it[k]) if isinstance(it[k], SymIter) else it[k]

    def bi_enumerate(self, args, kwargs):
        start = args[1] if len(args) > 1 else kwargs.get("start", 0)
        it = self.iterable(args[0])
        if isinstance(it, SeqIter):
            return SeqIter(it.i, it.n, (SInt(it.i + self.num(start)), it.elem))
        if not isinstance(it, list):
            raise Unsupported("enumerate over a collection in unknown order")
        return self.track(ConcreteIter([(self.binop("Add", start, i), x) for i, x in enumerate(it)], args[0]))

    def bi_zip(self, args, kwargs):
        its = []
        for a in args:
            it = self.iterable(a)
            if isinstance(it, SeqIter):
                self_n = next((len(i) for i in its if isinstance(i, list)), None)
                raise Unsupported("zip over a sequence of unknown length")
            if not isinstance(it, list):
                raise Unsupported("zip over a collection in unknown order")
            its.append(it)
        if kwargs.get("strict") and len({len(i) for i in its}) > 1:
            self.throw(ValueError, "zip() arguments of different length")
        return self.track(ConcreteIter([tuple(t) for t in zip(*its)],
                                       next((a for a in args if self.source(a) is not None), None)))

    def bi_reversed(self, args, kwargs):
        it = self.iterable(args[0])
        if isinstance(it, SeqIter):
            j = self.fresh("i")
            return SeqIter(j, it.n, subst(it.elem, [(it.i, it.n - 1 - j)]))
        if not isinstance(it, list):
            if isinstance(it, SymIter):
                return it
            raise Unsupported("reversed")
        return self.track(ConcreteIter(list(reversed(it)), args[0]))

    def bi_map(self, args, kwargs):
        its = [self.iterable(a) for a in args[1:]]
        if all(isinstance(i, list) for i in its) and not any(isinstance(x, SymIter) for i in its for x in i):
            return self.track(ConcreteIter([self.call(args[0], list(t), {}) for t in zip(*its)]))
        raise Unsupported("map over a collection of unknown size")

    def bi_filter(self, args, kwargs):
        it = self.iterable(args[1])
        if isinstance(it, list) and not any(isinstance(x, SymIter) for x in it):
            return self.track(ConcreteIter([x for x in it if self.test(x if args[0] is None else
                                                                     self.call(args[0], [x], {}))]))
        raise Unsupported("filter over a collection of unknown size")

    def bi_range(self, args, kwargs):
        ns = [self.resolve(a) for a in args]
        if concrete(ns):
            return self.native(range, ns)
        ts = []
        for a in ns:
            t = self.num(a)
            if t is None:
                self.throw(TypeError, "object cannot be interpreted as an integer")
            ts.append(t)
        if len(ts) == 3:
            step = ns[2]
            if step == -1:
                i = self.fresh("i")
                n = z3.If(ts[0] > ts[1], ts[0] - ts[1], z3.IntVal(0))
                return SeqIter(i, z3.simplify(n), SInt(ts[0] - i))
            if not (isinstance(step, int) and step > 0):
                raise Unsupported("range step")
            i = self.fresh("i")
            n = z3.If(ts[1] > ts[0], (ts[1] - ts[0] + step - 1) / step, z3.IntVal(0))
            return SeqIter(i, z3.simplify(n), SInt(ts[0] + i * step))
        lo, hi = (z3.IntVal(0), ts[0]) if len(ts) == 1 else ts[:2]
        i = self.fresh("i")
        n = z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
        return SeqIter(i, n, SInt(z3.simplify(lo + i)))

    def bi_sorted(self, args, kwargs):
        it = self.iterable(args[0])
        if isinstance(it, list) and concrete(it) and not kwargs:
            return self.native(sorted, [it])
        if isinstance(it, list) and len(it) <= 1:
            return self.track(HList(it))
        if isinstance(it, SymIter):
            return self.track(HList([SymIter(it.x, it.dom, it.elem, None, it.src, it.has)]))
        raise Unsupported("sorted")

    def minmax(self, args, kwargs, is_min):
        if len(args) == 1:
            it = self.iterable(args[0])
            if not isinstance(it, list) or any(isinstance(x, SymIter) for x in it):
                raise Unsupported("min/max over a collection of unknown size")
            args = it
        if kwargs.get("key") is not None or "default" in kwargs and not args:
            if not args:
                return kwargs["default"]
            raise Unsupported("min/max with a key")
        if not args:
            self.throw(ValueError, "empty sequence")
        if concrete(list(args)):
            return self.native(min if is_min else max, [list(args)])
        r = args[0]
        for x in args[1:]:
            if self.branch(Z(self.compare("Lt", x, r) if is_min else self.compare("Gt", x, r))):
                r = x
        return r

    def bi_min(self, args, kwargs):
        return self.minmax(args, kwargs, True)

    def bi_max(self, args, kwargs):
        return self.minmax(args, kwargs, False)

    def bi_print(self, args, kwargs):
        return None

    def bi_abs(self, args, kwargs):
        if concrete(args):
            return self.native(abs, args)
        n = self.num(args[0])
        if n is None:
            self.throw(TypeError, "bad operand type for abs()")
        return SInt(z3.If(n < 0, -n, n))

    def bi_super(self, args, kwargs):
        if len(args) != 2:
            raise Unsupported("super()")
        return SuperProxy(args[0], args[1])

    def bi_divmod(self, args, kwargs):
        return (self.binop("FloorDiv", *args), self.binop("Mod", *args))

    def bi_id(self, args, kwargs):
        raise Unsupported("id()")

    def bi_hash(self, args, kwargs):
        self.unhashable(self.resolve(args[0]))
        return SInt(self.apx("hash"))

    # -- methods -----------------------------------------------------------------------------------

    def call_method(self, v, name, args, kwargs):
        v = self.resolve(v)
        if isinstance(v, SAny):
            v = self.narrow(v, ["dict", "list", "str", "bytes", "int", "bool"])
            if isinstance(v, SAny):
                raise Unsupported(f"method {name} of an unknown value")
        if isinstance(v, External):
            m = v.methods.get(name)
            if m is None:
                m = v.methods.get("*")
                if m is None:
                    raise Unsupported(f"method {name} of {v!r}")
                return m(self, name, args, kwargs)
            return m(self, args, kwargs)
        args = [self.resolve(a) for a in args]
        if name in ("__len__", "__contains__", "__getitem__", "__setitem__", "__delitem__", "__iter__", "__eq__", "__ne__",
                    "__bool__", "__str__", "__or__", "__and__", "__add__", "__next__"):
            return self.dunder(v, name, args)
        if isinstance(v, (HDict, JDict, RootMap, HeapMap)) or isinstance(v, dict):
            return self.dict_method(v, name, args, kwargs)
        if isinstance(v, (HList, JList)):
            return self.list_method(v, name, args, kwargs)
        if isinstance(v, (HSet, RootSet)):
            return self.set_method(v, name, args, kwargs)
        if isinstance(v, DView):
            if name in ("isdisjoint",):
                raise Unsupported("view method")
        if isinstance(v, (str, SStr)):
            return self.str_method(v, name, args, kwargs)
        if isinstance(v, (bytes, SBytes, BytesItems, BytesArr)):
            return self.bytes_method(v, name, args, kwargs)
        if isinstance(v, (int, SInt, SBool)):
            return self.int_method(v, name, args, kwargs)
        if isinstance(v, (tuple, list, set, frozenset, range)):
            if concrete(v) and concrete(args) and concrete(kwargs):
                if isinstance(v, (list, set)) and name in ("append", "extend", "insert", "pop", "remove", "clear", "add",
                                                           "update", "sort", "reverse", "discard"):
                    raise Unsupported("mutation of an object shared across calls")
                return self.native(getattr(v, name), args, kwargs)
            if isinstance(v, (tuple, list)):
                return self.list_method(HList(list(v)), name, args, kwargs)
            return self.set_method(HSet(list(v)), name, args, kwargs)
        if not is_sym(v) and concrete(args) and concrete(kwargs):
            raise Unsupported(f"method {name} of {type(v).__name__}")
        raise Unsupported(f"method {name} of {v!r}")

    def dunder(self, v, name, args):
        if name == "__len__":
            return self.length(v)
        if name == "__contains__":
            return self.as_bool(self.contains(v, args[0]))
        if name == "__getitem__":
            return self.index(v, args[0])
        if name == "__setitem__":
            return self.store_index(v, args[0], args[1])
        if name == "__delitem__":
            return self.del_index(v, args[0])
        if name == "__iter__":
            return self.bi_iter([v], {})
        if name == "__next__":
            return self.bi_next([v], {})
        if name == "__eq__":
            return self.as_bool(self.eq(v, args[0]))
        if name == "__ne__":
            return self.as_bool(Not(self.eq(v, args[0])))
        if name == "__bool__":
            return self.as_bool(self.truth(v))
        if name == "__str__":
            return self.to_str(v)
        return self.binop({"__or__": "BitOr", "__and__": "BitAnd", "__add__": "Add"}[name], v, args[0])

    def shared(self, v):
        if isinstance(v, (dict, list, set)):
            raise Unsupported("mutation of an object shared across calls")

    def dict_method(self, d, name, args, kwargs):
        if name == "get":
            return self.dict_get(d, args[0], args[1] if len(args) > 1 else kwargs.get("default"))
        if name in ("keys", "values", "items"):
            return DView(d, name)
        if name == "copy":
            return self.dict_copy(d)
        self.shared(d)
        if name == "pop":
            x = self.dict_find(d, args[0])
            if x is MISSING:
                if len(args) > 1:
                    return args[1]
                self.throw(KeyError, args[0])
            self.dict_del(d, args[0])
            return x
        if name == "setdefault":
            x = self.dict_find(d, args[0])
            if x is MISSING:
                v = args[1] if len(args) > 1 else kwargs.get("default")
                self.dict_set(d, args[0], v)
                # the map may hold it in another form now
                return self.dict_find(d, args[0]) if isinstance(self.resolve(d), (RootMap, HeapMap)) else v
            return x
        if name == "update":
            for a in args:
                self.dict_update(d, a)
            for k, v in kwargs.items():
                self.dict_set(d, k, v)
            return None
        if name == "clear":
            if isinstance(d, HDict):
                d.entries = []
                return None
            if isinstance(d, (RootMap, HeapMap)):
                self.mstore(d, EMPTY(self.map_kinds(d)[0].sort), None)
                return None
        if name == "popitem" and isinstance(d, HDict):
            if not d.entries:
                self.throw(KeyError, "dictionary is empty")
            k, v = d.entries[-1]
            d.entries = d.entries[:-1]
            return (k, v)
        raise Unsupported(f"dict.{name}")

    def list_method(self, v, name, args, kwargs):
        if isinstance(v, JList):
            if name in ("copy",):
                return v
            if name in ("append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse"):
                raise Unsupported("mutation of an input list")
            if name == "index" or name == "count":
                v = HList(self.items_of(v))
            else:
                raise Unsupported(f"list.{name}")
        sym = any(isinstance(x, SymIter) for x in v.items)
        if isinstance(v, HTuple) and name not in ("index", "count"):
            raise Unsupported(f"tuple.{name}")
        if name == "append":
            v.items = v.items + [args[0]]
            return None
        if name == "extend":
            v.items = v.items + self.extend_items(args[0])
            return None
        if name == "copy":
            return self.track(HList(list(v.items)))
        if name == "clear":
            v.items = []
            return None
        if name == "reverse":
            v.items = list(reversed(v.items))
            return None
        if name == "insert" and isinstance(args[0], int) and not sym:
            items = list(v.items)
            items.insert(args[0], args[1])
            v.items = items
            return None
        if name == "insert" and args[0] == 0:
            v.items = [args[1]] + v.items
            return None
        if name == "pop" and not sym:
            i = args[0] if args else -1
            if not isinstance(i, int):
                raise Unsupported("list.pop")
            if not v.items or not -len(v.items) <= i < len(v.items):
                self.throw(IndexError, "pop index out of range")
            items = list(v.items)
            x = items.pop(i)
            v.items = items
            return x
        if name == "remove" and not sym:
            for i, x in enumerate(v.items):
                if self.branch(self.eq(x, args[0])):
                    v.items = v.items[:i] + v.items[i + 1:]
                    return None
            self.throw(ValueError, "list.remove(x): x not in list")
        if name == "index" and not sym:
            for i, x in enumerate(v.items):
                if self.branch(self.eq(x, args[0])):
                    return i
            self.throw(ValueError, "is not in list")
        if name == "count" and not sym:
            return sum(1 for x in v.items if self.branch(self.eq(x, args[0])))
        if name == "sort" and (len(v.items) <= 1 or concrete(v.items) and not kwargs):
            if len(v.items) > 1:
                try:
                    v.items = sorted(v.items)
                except TypeError as e:
                    self.throw(TypeError, *e.args)
            return None
        raise Unsupported(f"list.{name}")

    def set_method(self, s, name, args, kwargs):
        if name == "add":
            self.set_add(s, args[0])
            return None
        if name == "discard":
            self.set_remove(s, args[0])
            return None
        if name == "remove":
            if not self.set_remove(s, args[0]):
                self.throw(KeyError, args[0])
            return None
        if name == "clear":
            if isinstance(s, RootSet):
                s.has = EMPTY(s.key.sort)
            else:
                s.items = []
            return None
        if name == "copy":
            if isinstance(s, RootSet):
                return self.track(RootSet("copy", s.key, s.has))
            return self.track(HSet(list(s.items)))
        if name == "update":
            for a in args:
                it = self.iterable(a)
                if not isinstance(it, list):
                    raise Unsupported("set update of unknown size")
                for x in it:
                    self.set_add(s, x)
            return None
        if name == "pop":
            if isinstance(s, RootSet):
                x = self.pick(self.iterable(s))
                if x is MISSING:
                    self.throw(KeyError, "pop from an empty set")
                self.set_remove(s, x)
                return x
            if not s.items:
                self.throw(KeyError, "pop from an empty set")
            if len(s.items) == 1 and not isinstance(s.items[0], SymIter):
                x = s.items[0]
                s.items = []
                return x
        ops = {"union": "BitOr", "intersection": "BitAnd", "difference": "Sub"}
        if name in ops and len(args) == 1:
            return self.set_binop(ops[name], s, args[0])
        if name in ("issubset", "issuperset"):
            a, b = (s, args[0]) if name == "issubset" else (args[0], s)
            it = self.iterable(a)
            if isinstance(it, list):
                return self.as_bool(And(*[self.contains(b, x) for x in it]))
            if isinstance(it, SymIter):
                return self.as_bool(z3.ForAll([it.x], z3.Implies(Z(it.dom), Z(self.contains(b, it.elem)))))
        raise Unsupported(f"set.{name}")

    def str_method(self, v, name, args, kwargs):
        if name == "join":
            it = self.iterable(args[0])
            if isinstance(it, list) and not any(isinstance(x, SymIter) for x in it):
                out = []
                for i, x in enumerate(it):
                    x = self.narrow(x, ["str"])
                    if self.str_term(x) is None:
                        self.throw(TypeError, "sequence item: expected str instance")
                    if i:
                        out.append(v)
                    out.append(plain(x))
                return self.str_concat(out)
            for x in it if isinstance(it, list) else [it]:
                if isinstance(x, (SymIter, SeqIter)):
                    x = x.elem
                if not (isinstance(x, (str, SStr)) or isinstance(x, SAny) and con_of(x.t) == "str"):
                    raise Unsupported("join of what may not be strings")
            return SStr(self.apx("join"))
        if concrete(v) and concrete(args) and concrete(kwargs):
            return self.native(getattr(v, name), args, kwargs)
        if name == "format" or name == "format_map":
            return SStr(self.apx("format"))
        if name == "encode":
            e = args[0] if args else kwargs.get("encoding", "utf-8")
            if e not in ("utf-8", "utf8", "UTF-8", "utf_8"):
                if e == "ascii":
                    if isinstance(v, SStr) and not self.branch(z3.Function("ascii_only", I, B)(v.t)):
                        self.throw(UnicodeEncodeError, "ascii", "", 0, 1, "not in range")
                else:
                    raise Unsupported(f"encoding {e!r}")
            return self.encode(v)
        if name == "startswith" or name == "endswith":
            a = args[0]
            if isinstance(v, SStr) and isinstance(a, str) and v.parts and name == "startswith" and isinstance(v.parts[0], str) \
                    and len(v.parts[0]) >= len(a):
                return v.parts[0].startswith(a)
            if isinstance(a, (str, SStr)):
                return SBool(z3.Function("apx_" + name, I, I, B)(self.str_term(v), self.str_term(a)))
        if name in ("lower", "upper", "strip", "lstrip", "rstrip", "title", "replace", "capitalize", "casefold", "removeprefix",
                    "removesuffix", "ljust", "rjust", "zfill", "center"):
            ts = [self.str_term(x) if isinstance(x, (str, SStr)) else self.int_term(x) for x in args]
            if any(t is None for t in ts):
                raise Unsupported(f"str.{name}")
            f = z3.Function(f"apx_{name}_{len(ts)}", *([I] * (len(ts) + 1)), I)
            return SStr(f(self.str_term(v), *ts))
        if name in ("isdigit", "isalpha", "isalnum", "isspace", "isnumeric", "isdecimal", "islower", "isupper", "isascii",
                    "isidentifier", "isprintable"):
            return SBool(z3.Function("apx_" + name, I, B)(self.str_term(v)))
        raise Unsupported(f"str.{name}")

    def encode(self, v):
        """UTF-8 encoding (strings are assumed to be valid Unicode text)."""
        if isinstance(v, str):
            return v.encode()
        if v.parts and all(isinstance(p, str) or True for p in v.parts):
            pass
        t = enc(v.t)
        self.fact(("enc", v.t), And(dec(t) == v.t, decodable(t), (t == lit(b"")) == (v.t == lit(""))))
        return SBytes(t)

    def bytes_method(self, v, name, args, kwargs):
        if concrete(v) and concrete(args) and concrete(kwargs):
            return self.native(getattr(v, name), args, kwargs)
        if name == "decode" and isinstance(v, SBytes):
            e = args[0] if args else kwargs.get("encoding", "utf-8")
            if e not in ("utf-8", "utf8", "UTF-8", "utf_8", "ascii"):
                raise Unsupported(f"encoding {e!r}")
            if e == "ascii":
                if not self.branch(z3.Function("ascii_bytes", I, B)(v.t)):
                    self.throw(UnicodeDecodeError, "ascii", b"", 0, 1, "not in range")
                self.assume(decodable(v.t))
            elif not self.branch(decodable(v.t)):
                self.throw(UnicodeDecodeError, "utf-8", b"", 0, 1, "invalid")
            if z3.is_app(v.t) and v.t.decl().eq(enc):
                return SStr(v.t.arg(0))
            t = dec(v.t)
            self.fact(("dec", v.t), And(enc(t) == v.t, (t == lit("")) == (v.t == lit(b""))))
            return SStr(t)
        if name == "hex" and isinstance(v, SBytes) and not args:
            return self.hex_of(v)
        if name == "hex":
            return SStr(self.apx("hex"))
        raise Unsupported(f"bytes.{name}")

    def hex_of(self, v):
        """The text of the hex digits of a byte string."""
        h = z3.Function("hexs", I, I)
        unhex = z3.Function("unhexs", I, I)
        ishex = z3.Function("ishex", I, B)
        t = h(v.t)
        ascii_only, ascii_bytes = z3.Function("ascii_only", I, B), z3.Function("ascii_bytes", I, B)
        self.fact(("hex", t), And(ishex(t), unhex(t) == v.t, (t == lit("")) == (v.t == lit(b"")), ascii_only(t), encodable(t),
                                  ascii_bytes(enc(t))))
        if v.parts:
            return self.str_concat([self.hex_of(p) if isinstance(p, SBytes) else p.hex() for p in v.parts])
        return SStr(t)

    def int_method(self, v, name, args, kwargs):
        if concrete(v) and concrete(args) and concrete(kwargs):
            return self.native(getattr(v, name), args, kwargs)
        if name == "to_bytes":
            n = args[0] if args else kwargs.get("length", 1)
            order = args[1] if len(args) > 1 else kwargs.get("byteorder", "big")
            signed = kwargs.get("signed", False)
            if isinstance(n, int) and 0 <= n <= 16 and order in ("big", "little") and signed is False:
                t = self.num(v)
                if not self.branch(z3.And(t >= 0, t < 256 ** n)):
                    self.throw(OverflowError, "int too big to convert")
                items = [z3.simplify((t / (256 ** k)) % 256 if k else t % 256) for k in range(n)]
                return BytesItems(items if order == "little" else items[::-1])
        if name == "bit_length":
            t = self.num(v)
            a = z3.If(t < 0, -t, t)
            if self.entails(a < 2 ** 64):
                r = z3.IntVal(0)
                for k in range(64):
                    r = z3.If(a >= 2 ** k, z3.IntVal(k + 1), r)
                return SInt(r)
            r = self.fresh("bit_length")
            self.assume(z3.And(r >= 0, (a == 0) == (r == 0), z3.Implies(a >= 2 ** 64, r >= 65),
                               *[z3.And(a >= 2 ** k, a < 2 ** (k + 1)) == (r == k + 1) for k in range(64)]))
            return SInt(r)
        if name in ("__int__", "__index__", "conjugate"):
            return self.ival(self.num(v))
        raise Unsupported(f"int.{name}")
