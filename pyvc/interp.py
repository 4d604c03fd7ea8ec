"""The interpreter: executes the AST of real functions on symbolic values."""
import ast
import builtins
import contextlib
import dataclasses
import enum
import functools
import inspect
import sys
import itertools
import types

import z3

from .terms import *
from .core import *
from .ops import Ops, concrete, plain, is_sym
from .coll import Coll, MISSING
from .builtins_ import Builtins

PKG = "wampproto"
_asts = {}


def file_ast(path):
    if path not in _asts:
        with open(path, encoding="utf-8") as f:
            _asts[path] = ast.parse(f.read())
    return _asts[path]


_nodes = {}


def node_of(fn):
    """The AST node of a real function."""
    code = fn.__code__
    key = (code.co_filename, code.co_firstlineno, code.co_name)
    if key in _nodes:
        return _nodes[key]
    tree = file_ast(code.co_filename)
    hits = []
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name == code.co_name:
            first = min([n.lineno] + [d.lineno for d in n.decorator_list])
            if first == code.co_firstlineno:
                hits.append(n)
        elif isinstance(n, ast.Lambda) and code.co_name == "<lambda>" and n.lineno == code.co_firstlineno:
            hits.append(n)
    if len(hits) != 1:
        raise Unsupported(f"source of {fn.__qualname__} not found")
    _nodes[key] = hits[0]
    return hits[0]


def has_yield(node):
    todo = list(node.body) if not isinstance(node, ast.Lambda) else [node.body]
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


def assigned_names(stmts):
    out = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
    return out


def in_pkg(obj):
    m = getattr(obj, "__module__", None) or ""
    return m == PKG or m.startswith(PKG + ".") or m in EXTRA_MODULES


EXTRA_MODULES = set()


LOCALS = {}


def local_names(fn):
    """The names a function binds itself: reading one before it is bound never finds a global of that name."""
    node = fn.node if isinstance(fn, EngineFunc) else node_of(fn) if isinstance(fn, types.FunctionType) else None
    if node is None:
        return ()
    r = LOCALS.get(node)
    if r is None:
        a = node.args
        r = {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]}
        outer = set()
        stack = list(node.body) if isinstance(node.body, list) else [node.body]
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                r.add(n.name)
                continue
            if isinstance(n, ast.Lambda):
                continue
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                outer |= set(n.names)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                r.add(n.id)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                r |= {(x.asname or x.name).split(".")[0] for x in n.names}
            elif isinstance(n, ast.ExceptHandler) and n.name:
                r.add(n.name)
            elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                r.add(n.name)
            elif isinstance(n, ast.MatchMapping) and n.rest:
                r.add(n.rest)
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                # targets of a comprehension are its own; a name bound by := inside it is the function's
                own = assigned_names_of_gens(n.generators)
                r |= {m.target.id for m in ast.walk(n) if isinstance(m, ast.NamedExpr)} - own
                stack.append(n.generators[0].iter)
                continue
            stack.extend(ast.iter_child_nodes(n))
        r = LOCALS[node] = frozenset(r - outer)
    return r


class Interp(Ops, Coll, Builtins, Engine):
    def __init__(self, **kw):
        super().__init__(**kw)
        self.lazy = 0                       # evaluating a generator that may be left before its end
        from . import models
        self.models = models.MODELS
        self.exec_table = {n[5:]: getattr(self, n) for n in dir(self) if n.startswith("exec_")}
        self.eval_table = {n[5:]: getattr(self, n) for n in dir(self) if n.startswith("eval_")}
        self.bt = {k: getattr(self, "bi_" + k.__name__) for k in
                   (len, isinstance, issubclass, getattr, hasattr, setattr, list, tuple, set, frozenset, dict, str, int,
                    bool, bytes, bytearray, type, any, all, sum, next, iter, enumerate, zip, reversed, map, filter, range,
                    sorted, min, max, repr, print, abs, callable, super, divmod, id, float, hash, vars)
                   if hasattr(self, "bi_" + k.__name__)}

    # -- names -----------------------------------------------------------------------------------

    def lookup(self, name, frame):
        f = frame
        while f is not None:
            if name in f.locals:
                v = f.locals[name]
                if isinstance(v, Poison):
                    raise Unsupported(f"local {name} read after a loop ({v.why})")
                return v
            if name in f.cells:
                return f.cells[name]
            if name in local_names(f.fn):
                self.throw(UnboundLocalError if f is frame else NameError, f"cannot access local variable '{name}'")
            f = f.parent
        g = frame.globals
        if name in g:
            return g[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        node = frame.fn
        self.throw(NameError, f"name '{name}' is not defined")

    def mro_lookup(self, cls, name):
        for c in cls.__mro__:
            if name in c.__dict__:
                return c.__dict__[name]
        return None

    def getattr(self, v, name, default=MISSING):
        v = self.resolve(v)
        if isinstance(v, SAny):
            if not name.startswith("__"):
                have = [t for t, c in (("dict", dict), ("list", list), ("str", str), ("bytes", bytes), ("int", int), ("bool", bool))
                        if hasattr(c, name)]
                if have:
                    v = self.narrow(v, have)
                if isinstance(v, SAny) and hasattr(float, name) and self.has_tag(v.t, "float"):
                    raise Unsupported("attribute of a float")
            if isinstance(v, SAny):
                if name == "__class__":
                    return SType(v)
                k = self.known_tag(v.t)
                if k in ("none", "bool", "int", "str", "list", "dict", "bytes", "float") or self.branch(
                        z3.Not(z3.Or(Val.is_obj(v.t), Val.is_opq(v.t)))):
                    return self.no_attr(v, name, default)
                raise Unsupported(f"attribute {name} of an unknown object")
        if isinstance(v, HLazy) and name == "__class__" and len(v.makers) > 1:
            return SType(v)
        if isinstance(v, HInst):
            return self.inst_attr(v, v.cls, v.attrs, name, default)
        if isinstance(v, GInst):
            if name in v.kind.attrs:
                k, s = self.attr_key(v.kind, name)
                return self.dec_kind(v.kind.attrs[name], sel(self.hget(k, s), v.addr))
            return self.inst_attr(v, v.kind.cls, {}, name, default)
        if isinstance(v, External):
            if name in v.attrs:
                a = v.attrs[name]
                return a() if callable(a) and not isinstance(a, type) else a
            if name in v.methods:
                return BuiltinMethod(v, name)
            if "*" in v.methods:
                return BuiltinMethod(v, name)
            if v.cls is not None and self.mro_lookup(v.cls, name) is not None:
                return self.inst_attr(v, v.cls, {}, name, default)
            if default is not MISSING:
                return default
            raise Unsupported(f"attribute {name} of {v!r}")
        if isinstance(v, SuperProxy):
            cls = v.self_ if isinstance(v.self_, type) else self.pytype(v.self_)
            mro = list(cls.__mro__)
            for c in mro[mro.index(v.cls) + 1:]:
                if name in c.__dict__:
                    return self.bind(c.__dict__[name], v.self_, cls)
            return self.no_attr(v, name, default)
        if isinstance(v, SType) and isinstance(v.v, HLazy):
            return self.getattr(v.v.cls, name, default)
        if isinstance(v, SType):
            if name in ("__name__", "__qualname__"):
                return SStr(typename(v.v.t))
            raise Unsupported(f"attribute {name} of an unknown type")
        if isinstance(v, (EngineFunc, BoundMethod, Partial)):
            if name == "__name__":
                return getattr(v, "name", None) or v.func.__name__
            if name == "__func__":
                return v.func
            if name == "__self__":
                return v.self_
            raise Unsupported(f"attribute {name} of a function")
        if is_sym(v):
            t = self.pytype(v)
            if name == "__class__":
                return t
            if hasattr(t, name):
                return BuiltinMethod(v, name)
            return self.no_attr(v, name, default)
        # real objects
        if isinstance(v, type):
            a = self.mro_lookup(v, name)
            if a is None:
                try:
                    return getattr(v, name)
                except AttributeError:
                    return self.no_attr(v, name, default)
            if isinstance(a, (classmethod,)):
                return BoundMethod(v, a.__func__)
            if isinstance(a, staticmethod):
                return a.__func__
            try:
                return getattr(v, name)
            except AttributeError:
                return self.no_attr(v, name, default)
        if isinstance(v, (list, dict, set)) and name in ("append", "extend", "insert", "pop", "remove", "clear", "add",
                                                         "update", "setdefault", "sort", "reverse", "discard", "popitem"):
            raise Unsupported("mutation of an object shared across calls")
        if isinstance(v, (str, bytes, int, float, list, dict, tuple, set, frozenset, range)) and not isinstance(v, enum.Enum):
            if hasattr(v, name):
                return BuiltinMethod(v, name)
            return self.no_attr(v, name, default)
        cls = type(v)
        if in_pkg(cls) and not isinstance(v, (types.FunctionType, types.ModuleType, enum.Enum)):
            a = self.mro_lookup(cls, name)
            if isinstance(a, property):
                return self.call(a.fget, [v], {})
            if isinstance(a, types.FunctionType) and name not in getattr(v, "__dict__", {}):
                return BoundMethod(v, a)
        try:
            return getattr(v, name)
        except AttributeError as e:
            if default is not MISSING:
                return default
            self.throw(AttributeError, *e.args)

    def no_attr(self, v, name, default):
        self.represented(v, f".{name}")
        if default is not MISSING:
            return default
        self.throw(AttributeError, f"object has no attribute '{name}'")

    def inst_attr(self, v, cls, attrs, name, default):
        a = self.mro_lookup(cls, name)
        if isinstance(a, property):
            if a.fget is None:
                self.throw(AttributeError, name)
            try:
                return self.call(a.fget, [v], {})
            except PyRaise as e:
                if default is not MISSING and issubclass(e.exc.cls, AttributeError):
                    return default
                raise
        if isinstance(a, functools.cached_property):
            if name not in attrs:
                r = self.call(a.func, [v], {})
                self.setattr(v, name, r)
                return r
        if name in attrs:
            return attrs[name]
        if a is not None:
            return self.bind(a, v, cls)
        if name == "__class__":
            return cls
        if name == "__dict__":
            raise Unsupported("__dict__")
        if cls.__dict__.get("__getattr__") is not None:
            raise Unsupported("__getattr__")
        return self.no_attr(v, name, default)

    def bind(self, a, self_, cls):
        if isinstance(a, types.FunctionType):
            return BoundMethod(self_, a) if not isinstance(self_, type) else a
        if isinstance(a, classmethod):
            return BoundMethod(cls, a.__func__)
        if isinstance(a, staticmethod):
            return a.__func__
        if isinstance(a, property):
            return self.call(a.fget, [self_], {})
        if isinstance(a, (types.WrapperDescriptorType, types.MethodDescriptorType, types.BuiltinFunctionType)):
            return BoundMethod(self_, a)
        if hasattr(a, "__get__") and not isinstance(a, (type, types.FunctionType)):
            raise Unsupported(f"descriptor {a!r}")
        return a

    def setattr(self, v, name, x):
        v = self.resolve(v)
        if isinstance(v, HInst):
            a = self.mro_lookup(v.cls, name)
            if isinstance(a, property):
                if a.fset is None:
                    self.throw(AttributeError, f"property '{name}' has no setter")
                self.call(a.fset, [v, x], {})
                return
            if self.mro_lookup(v.cls, "__setattr__") is not object.__setattr__ and not issubclass(v.cls, BaseException):
                if getattr(v.cls, "__dataclass_params__", None) is not None and v.cls.__dataclass_params__.frozen:
                    self.throw(dataclasses.FrozenInstanceError, name)
                raise Unsupported("__setattr__")
            v.attrs[name] = x
            return
        if isinstance(v, GInst):
            if name not in v.kind.attrs:
                raise Unsupported(f"attribute {name} outside the contract of {v.kind.cls.__name__}")
            k, s = self.attr_key(v.kind, name)
            t = self.enc_kind(v.kind.attrs[name], x)
            self.heap[k] = z3.Store(self.hget(k, s), v.addr, t)
            return
        if isinstance(v, (SInt, SStr, SBool, SBytes, int, str, type(None), HDict, HList)):
            self.throw(AttributeError, name)
        raise Unsupported(f"assignment to attribute {name} of {v!r}")

    # -- calls -----------------------------------------------------------------------------------

    def call(self, fn, args, kwargs):
        fn = self.resolve(fn)
        if isinstance(fn, BoundMethod):
            if isinstance(fn.func, (types.WrapperDescriptorType, types.MethodDescriptorType, types.BuiltinFunctionType)):
                return self.slot_method(fn.func, [fn.self_] + list(args), kwargs)
            if isinstance(fn.self_, type) and isinstance(fn.func, types.FunctionType):
                m = types.MethodType(fn.func, fn.self_)
                if self.hashable(m) and m in self.models:
                    return self.models[m](self, list(args), dict(kwargs))
            return self.call(fn.func, [fn.self_] + list(args), kwargs)
        if isinstance(fn, BuiltinMethod):
            return self.call_method(fn.self_, fn.name, list(args), kwargs)
        if isinstance(fn, Partial):
            return self.call(fn.fn, list(fn.args) + list(args), {**fn.kwargs, **kwargs})
        if isinstance(fn, EngineFunc):
            return self.call_engine(fn, list(args), kwargs)
        if isinstance(fn, External):
            if "__call__" in fn.methods:
                return fn.methods["__call__"](self, list(args), kwargs)
            raise Unsupported(f"call of {fn!r}")
        if isinstance(fn, (HInst, GInst)):
            f = self.mro_lookup(self.pytype(fn), "__call__")
            if f is None:
                self.throw(TypeError, "object is not callable")
            return self.call(f, [fn] + list(args), kwargs)
        if isinstance(fn, SType):
            if isinstance(fn.v, HLazy):
                return self.call(fn.v.cls, args, kwargs)
            raise Unsupported("call of an unknown type")
        if isinstance(fn, SAny):
            raise Unsupported("call of an unknown value")
        if is_sym(fn):
            self.throw(TypeError, "object is not callable")
        h = self.hook_for(fn)
        if h is not None:
            return h(self, list(args), dict(kwargs))
        if isinstance(fn, types.MethodType):
            if self.hashable(fn) and fn in self.models:
                return self.models[fn](self, list(args), dict(kwargs))
            return self.call(fn.__func__, [fn.__self__] + list(args), kwargs)
        m = self.models.get(fn) if isinstance(getattr(fn, "__hash__", None), object) and self.hashable(fn) else None
        if m is not None:
            return m(self, list(args), dict(kwargs))
        if isinstance(fn, types.FunctionType):
            if in_pkg(fn):
                return self.call_python(fn, list(args), dict(kwargs))
            raise Unsupported(f"call of library function {fn.__module__}.{fn.__qualname__}")
        if isinstance(fn, functools.partial):
            return self.call(fn.func, list(fn.args) + list(args), {**fn.keywords, **kwargs})
        if hasattr(fn, "__wrapped__") and not isinstance(fn, type):
            if isinstance(fn, functools._lru_cache_wrapper) and in_pkg(fn.__wrapped__):
                raise Unsupported("cached function")
            return self.call(fn.__wrapped__, args, kwargs)
        if self.hashable(fn) and fn in self.bt:
            return self.bt[fn](list(args), dict(kwargs))
        if isinstance(fn, type):
            return self.instantiate(fn, list(args), dict(kwargs))
        if isinstance(fn, (types.BuiltinFunctionType, types.MethodDescriptorType, types.WrapperDescriptorType)):
            if isinstance(fn, types.MethodDescriptorType) and args:
                return self.call_method(args[0], fn.__name__, list(args[1:]), kwargs)
            if isinstance(fn, types.WrapperDescriptorType):
                return self.slot_method(fn, list(args), kwargs)
            if getattr(fn, "__self__", None) is not None and not isinstance(fn.__self__, types.ModuleType):
                return self.call_method(fn.__self__, fn.__name__, list(args), kwargs)
            raise Unsupported(f"call of {fn.__module__}.{fn.__name__}")
        if callable(fn):
            raise Unsupported(f"call of {fn!r}")
        self.throw(TypeError, f"'{type(fn).__name__}' object is not callable")

    @staticmethod
    def hashable(o):
        try:
            hash(o)
            return True
        except TypeError:
            return False

    def hook_for(self, fn):
        try:
            return self.hooks.get(fn)
        except TypeError:
            return None

    def slot_method(self, fn, args, kwargs):
        name = fn.__name__
        if name == "__init__":
            s = args[0]
            if isinstance(s, HInst) and issubclass(s.cls, BaseException):
                s.attrs["args"] = tuple(args[1:])
            elif len(args) > 1 and fn.__objclass__ is object:
                self.throw(TypeError, "object.__init__() takes exactly one argument")
            elif fn.__objclass__ not in (object,) and not issubclass(fn.__objclass__, BaseException):
                raise Unsupported(f"base class {fn.__objclass__}")
            return None
        if name == "__str__" and isinstance(args[0], HInst):
            return SStr(self.apx("str"))
        if name == "__eq__":
            return self.as_bool(self.identical(args[0], args[1]))
        raise Unsupported(f"call of {fn!r}")

    def call_python(self, fn, args, kwargs):
        node = node_of(fn)
        q = f"{fn.__module__}.{fn.__qualname__}"
        self.functions[q] = self.functions.get(q, 0) + 1
        if isinstance(node, ast.AsyncFunctionDef) or has_yield(node):
            raise Unsupported(f"generator or coroutine {q}")
        cells = {}
        if fn.__closure__:
            for n, c in zip(fn.__code__.co_freevars, fn.__closure__):
                try:
                    cells[n] = c.cell_contents
                except ValueError:
                    pass
        fr = Frame(fn, fn.__globals__, {}, None, cells.get("__class__"), cells)
        defaults = fn.__defaults__ or ()
        self.bind_args(node.args, fr, args, kwargs, list(defaults), fn.__kwdefaults__ or {}, fn.__name__)
        return self.run(node, fr)

    def call_engine(self, f, args, kwargs):
        fr = Frame(f, f.frame.globals, {}, f.frame, f.frame.cls)
        self.bind_args(f.node.args, fr, args, kwargs, f.defaults, f.kwdefaults, f.name)
        if has_yield(f.node):
            raise Unsupported("generator function")
        return self.run(f.node, fr)

    def bind_args(self, a, fr, args, kwargs, defaults, kwdefaults, name):
        params = [p.arg for p in a.posonlyargs + a.args]
        pos_only = {p.arg for p in a.posonlyargs}
        kwargs = dict(kwargs)
        loc = fr.locals
        if len(args) > len(params):
            if a.vararg is None:
                self.throw(TypeError, f"{name}() takes {len(params)} positional arguments but {len(args)} were given")
            loc[a.vararg.arg] = tuple(args[len(params):])
        elif a.vararg is not None:
            loc[a.vararg.arg] = ()
        for p, v in zip(params, args):
            loc[p] = v
        for p in params[len(args):]:
            if p in kwargs and p not in pos_only:
                loc[p] = kwargs.pop(p)
            else:
                i = params.index(p) - (len(params) - len(defaults))
                if i < 0:
                    self.throw(TypeError, f"{name}() missing required argument '{p}'")
                loc[p] = defaults[i]
        for p in a.kwonlyargs:
            if p.arg in kwargs:
                loc[p.arg] = kwargs.pop(p.arg)
            elif p.arg in kwdefaults:
                loc[p.arg] = kwdefaults[p.arg]
            else:
                self.throw(TypeError, f"{name}() missing keyword argument '{p.arg}'")
        if a.kwarg is not None:
            loc[a.kwarg.arg] = self.track(HDict([(k, v) for k, v in kwargs.items()]))
        elif kwargs:
            self.throw(TypeError, f"{name}() got an unexpected keyword argument '{next(iter(kwargs))}'")

    def run(self, node, fr):
        self.depth += 1
        if self.depth > self.max_depth:
            self.depth -= 1
            self.throw(RecursionError, "maximum recursion depth exceeded")
        self.frames.append(fr)
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, fr)
            self.block(node.body, fr)
            return None
        except Return as r:
            return r.value
        finally:
            self.depth -= 1
            if self.frames and self.frames[-1] is fr:
                self.frames.pop()

    def instantiate(self, cls, args, kwargs):
        if issubclass(cls, enum.Enum):
            if len(args) == 1:
                for m in cls:
                    if self.branch(self.eq(m.value, args[0])):
                        return m
                self.throw(ValueError, f"not a valid {cls.__name__}")
            raise Unsupported("enum")
        if not in_pkg(cls) and not issubclass(cls, BaseException) and cls is not object:
            raise Unsupported(f"instance of {cls.__module__}.{cls.__name__}")
        if cls in self.schemas:
            o = GInst(self.alloc(), self.schemas[cls])
        else:
            o = self.track(HInst(cls))
            if issubclass(cls, BaseException):
                o.attrs["args"] = tuple(args)
        new = self.mro_lookup(cls, "__new__")
        if new is not None and isinstance(new, (staticmethod, types.FunctionType)) and not isinstance(
                getattr(new, "__func__", new), types.BuiltinFunctionType):
            raise Unsupported("__new__")
        init = self.mro_lookup(cls, "__init__")
        if isinstance(init, types.FunctionType):
            if dataclasses.is_dataclass(cls) and init.__code__.co_filename == "<string>":
                self.dataclass_init(o, cls, args, kwargs)
            else:
                r = self.call(init, [o] + args, kwargs)
        elif args or kwargs:
            if not issubclass(cls, BaseException):
                self.throw(TypeError, f"{cls.__name__}() takes no arguments")
        return o

    def dataclass_init(self, o, cls, args, kwargs):
        fields = [f for f in dataclasses.fields(cls) if f.init]
        pos = [f for f in fields if not f.kw_only]
        if len(args) > len(pos):
            self.throw(TypeError, "too many positional arguments")
        kwargs = dict(kwargs)
        for i, f in enumerate(fields):
            if f in pos and pos.index(f) < len(args):
                v = args[pos.index(f)]
                if f.name in kwargs:
                    self.throw(TypeError, f"multiple values for argument '{f.name}'")
            elif f.name in kwargs:
                v = kwargs.pop(f.name)
            elif f.default is not dataclasses.MISSING:
                v = f.default
            elif f.default_factory is not dataclasses.MISSING:
                v = self.call(f.default_factory, [], {})
            else:
                self.throw(TypeError, f"missing argument '{f.name}'")
            if isinstance(o, HInst):
                o.attrs[f.name] = v
            else:
                self.setattr(o, f.name, v)
        if kwargs:
            self.throw(TypeError, "unexpected keyword argument")
        for f in dataclasses.fields(cls):
            if not f.init:
                raise Unsupported("dataclass field without init")
        post = self.mro_lookup(cls, "__post_init__")
        if post is not None:
            self.call(post, [o], {})

    # -- statements ------------------------------------------------------------------------------

    def block(self, stmts, fr):
        for s in stmts:
            h = self.exec_table.get(type(s).__name__)
            if h is None:
                raise Unsupported(f"statement {type(s).__name__} (line {s.lineno})")
            h(s, fr)

    def exec_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, fr)

    def exec_Pass(self, s, fr):
        pass

    def exec_Global(self, s, fr):
        raise Unsupported("global statement")

    def exec_Nonlocal(self, s, fr):
        fr.nonlocals.update(s.names)

    def exec_Import(self, s, fr):
        import importlib
        for a in s.names:
            m = importlib.import_module(a.name)
            fr.locals[a.asname or a.name.split(".")[0]] = m if a.asname else sys.modules[a.name.split(".")[0]]

    def exec_ImportFrom(self, s, fr):
        import importlib
        m = importlib.import_module("." * s.level + (s.module or ""), fr.globals.get("__package__"))
        for a in s.names:
            fr.locals[a.asname or a.name] = getattr(m, a.name)

    def exec_Return(self, s, fr):
        raise Return(self.eval(s.value, fr) if s.value is not None else None)

    def exec_Break(self, s, fr):
        raise Break()

    def exec_Continue(self, s, fr):
        raise Continue()

    def exec_If(self, s, fr):
        self.block(s.body if self.test(self.eval(s.test, fr)) else s.orelse, fr)

    def exec_Assert(self, s, fr):
        if not self.test(self.eval(s.test, fr)):
            self.throw(AssertionError, *([self.eval(s.msg, fr)] if s.msg else []))

    def exec_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def exec_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def exec_AugAssign(self, s, fr):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr)
            self.assign(t, self.inplace(op, cur, self.eval(s.value, fr)), fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.inplace(op, cur, self.eval(s.value, fr)))
        elif isinstance(t, ast.Subscript):
            o, i = self.eval(t.value, fr), self.eval(t.slice, fr)
            cur = self.index(o, i)
            self.store_index(o, i, self.inplace(op, cur, self.eval(s.value, fr)))
        else:
            raise Unsupported("augmented assignment")

    def inplace(self, op, cur, v):
        c = self.resolve(cur)
        if op == "Mult" and isinstance(c, (HList, JList)):
            raise Unsupported("a list multiplied in place")
        if op == "Add" and isinstance(c, HList):
            c.items = c.items + self.extend_items(v)
            return cur
        if op == "BitOr" and isinstance(c, HDict):
            self.dict_update(c, v)
            return cur
        if op in ("BitOr", "Sub", "BitAnd") and isinstance(c, (HSet, RootSet)):
            it = self.iterable(v)
            if not isinstance(it, list) or op == "BitAnd":
                raise Unsupported("in-place set operation")
            for x in it:
                self.set_add(c, x) if op == "BitOr" else self.set_remove(c, x)
            return cur
        return self.binop(op, cur, v)

    def extend_items(self, v):
        it = self.iterable(v)
        if isinstance(it, SeqIter):
            raise Unsupported("extension by a sequence of unknown length")
        return it if isinstance(it, list) else [SymIter(it.x, it.dom, it.elem, None, it.src, it.has)]

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            if t.id in fr.nonlocals:
                f = fr.parent
                while f is not None:
                    if t.id in f.locals:
                        f.locals[t.id] = v
                        return
                    f = f.parent
                raise Unsupported("nonlocal")
            fr.locals[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            self.store_index(o, self.eval(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if stars:
                items = self.narrow(v, ["list"])
                if isinstance(items, JList) and len(stars) == 1 and t.elts[-1] is t.elts[stars[0]] and not self.entails(llen(items.r) <= 12):
                    self.no_overlay(items)
                    n = len(t.elts) - 1
                    if not self.branch(llen(items.r) >= n):
                        self.throw(ValueError, "not enough values to unpack")
                    for i, x in enumerate(t.elts[:-1]):
                        self.assign(x, SAny(litem(items.r, z3.IntVal(i))), fr)
                    self.assign(t.elts[-1].value, Poison("the rest of a list of unbounded length"), fr)
                    return
                if isinstance(items, JList):
                    items = [SAny(litem(items.r, z3.IntVal(i))) for i in range(self.concrete_len(items))]
                else:
                    items = self.iterable(items)
                if not isinstance(items, list):
                    raise Unsupported("starred assignment")
                i, n = stars[0], len(t.elts)
                if len(items) < n - 1:
                    self.throw(ValueError, "not enough values to unpack")
                k = len(items) - (n - 1 - i)
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x, fr)
                self.assign(t.elts[i].value, self.track(HList(items[i:k])), fr)
                for e, x in zip(t.elts[i + 1:], items[k:]):
                    self.assign(e, x, fr)
                return
            for e, x in zip(t.elts, self.unpack(v, len(t.elts))):
                self.assign(e, x, fr)
        else:
            raise Unsupported(f"assignment to {type(t).__name__}")

    def exec_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.locals.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.del_index(self.eval(t.value, fr), self.eval(t.slice, fr))
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, fr)
                if isinstance(o, HInst) and t.attr in o.attrs:
                    del o.attrs[t.attr]
                else:
                    raise Unsupported("del of an attribute")
            else:
                raise Unsupported("del")

    def exec_Raise(self, s, fr):
        if s.exc is None:
            f = fr
            if f.exc is None:
                raise Unsupported("bare raise")
            raise PyRaise(f.exc)
        e = self.eval(s.exc, fr)
        if s.cause is not None:
            self.eval(s.cause, fr)
        if isinstance(e, type):
            e = self.call(e, [], {})
        if not isinstance(e, HInst):
            raise Unsupported("raise of a foreign object")
        raise PyRaise(e)

    def exec_FunctionDef(self, s, fr):
        if s.decorator_list:
            raise Unsupported("decorated local function")
        fr.locals[s.name] = self.make_func(s, fr, s.name)

    def make_func(self, node, fr, name):
        a = node.args
        return EngineFunc(node, fr, [self.eval(d, fr) for d in a.defaults],
                          {p.arg: self.eval(d, fr) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}, name)

    def matches(self, exc, spec):
        if isinstance(spec, (tuple,)):
            return any(self.matches(exc, c) for c in spec)
        if not isinstance(spec, type):
            raise Unsupported("except clause")
        return issubclass(exc.cls, spec)

    def exec_Try(self, s, fr):
        try:
            self.try_except(s, fr)
        except (PyRaise, Return, Break, Continue):
            self.block(s.finalbody, fr)
            raise
        else:
            self.block(s.finalbody, fr)

    def try_except(self, s, fr):
        depth, nfr = self.depth, len(self.frames)
        try:
            self.block(s.body, fr)
        except PyRaise as e:
            self.depth = depth
            del self.frames[nfr:]
            for h in s.handlers:
                if h.type is None or self.matches(e.exc, self.eval(h.type, fr)):
                    saved = fr.exc
                    fr.exc = e.exc
                    if h.name:
                        fr.locals[h.name] = e.exc
                    try:
                        self.block(h.body, fr)
                    finally:
                        fr.exc = saved
                        if h.name:
                            fr.locals.pop(h.name, None)
                    return
            raise
        self.block(s.orelse, fr)

    def exec_With(self, s, fr):
        def go(items):
            if not items:
                self.block(s.body, fr)
                return
            m = self.eval(items[0].context_expr, fr)
            if isinstance(m, External) and m.name == "suppress":
                depth, nfr = self.depth, len(self.frames)
                try:
                    go(items[1:])
                except PyRaise as e:
                    if not self.matches(e.exc, tuple(m.attrs["excs"])):
                        raise
                    self.depth = depth
                    del self.frames[nfr:]
                return
            raise Unsupported("with statement")
        go(s.items)

    def exec_While(self, s, fr):
        n = 0
        while True:
            before = len(self.trace)
            if not self.test(self.eval(s.test, fr)):
                break
            try:
                self.block(s.body, fr)
            except Break:
                return
            except Continue:
                pass
            n += 1
            if n > 200 or len(self.trace) > before and n > 24:
                raise Unsupported("while loop without bound")
        self.block(s.orelse, fr)

    def source(self, v):
        """The collection held by the engine that is walked when v is iterated, if any."""
        v = self.resolve(v)
        if isinstance(v, DView):
            v = self.resolve(v.d)
        if isinstance(v, EngineGen) and len(v.node.generators) == 1:
            v = self.source(v.first)
        if isinstance(v, ConcreteIter):
            v = self.source(v.src) if v.src is not None else None
        return v if isinstance(v, (HList, HSet, HDict)) else None

    def unchanged(self, src, before):
        """A collection changed while it is walked: Python notices a change of size of a dict or set."""
        now = self.walked(src)
        if len(now) == len(before) and all(a is b for a, b in zip(now, before)):
            return
        if isinstance(src, HList) or len(now) == len(before):
            raise Unsupported("a collection changed while it is iterated")
        self.throw(RuntimeError, "changed size during iteration")

    def walked(self, src):
        return [] if src is None else [k for k, _ in src.entries] if isinstance(src, HDict) else list(src.items)

    def exec_For(self, s, fr):
        src = self.eval(s.iter, fr)
        it = self.iterable(src)
        src = self.source(src)
        before = self.walked(src)
        if isinstance(it, SeqIter) and self.entails(it.n <= 12):
            n = 0
            while n < 12 and not self.branch(it.n == n):
                n += 1
            it = [subst(it.elem, [(it.i, z3.IntVal(k))]) for k in range(n)]
        if isinstance(it, list):
            for x in it:
                self.assign(s.target, x, fr)
                try:
                    self.block(s.body, fr)
                except Break:
                    return
                except Continue:
                    pass
                self.unchanged(src, before)
            self.block(s.orelse, fr)
            return
        if isinstance(it, SeqIter):
            return self.seq_loop(s, fr, it)
        self.sym_loop(s, fr, it)

    def check_closed(self, outs, y):
        """The outcomes must not depend on unknowns created inside the body, other than y."""
        for o in outs:
            for c in o.pc:
                for n in names_of(c):
                    if "!" in n and int(n.rsplit("!", 1)[1]) > o.fresh_from and n != y.decl().name():
                        raise Unsupported("loop body creates unknowns")

    def sym_loop(self, s, fr, it):
        targets = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        y = self.fresh("it", it.x.sort())
        pairs = [(it.x, y)]
        dom = z3.substitute(Z(it.dom), *pairs)
        poison = set()

        def body():
            for k in poison:
                fr.locals[k] = Poison("assigned in a loop")
            self.assume(dom)
            self.assign(s.target, subst(it.elem, pairs), fr)
            self.block(s.body, fr)

        outs = self.nested(body, skip=targets)
        normal = [o for o in outs if o.kind == "normal"]
        exits = [o for o in outs if o.kind != "normal"]
        changed = {k[1] for o in normal for w, k in o.effects if w == "local" and k[0] is fr}
        if any(w == "local" and k[0] is not fr for o in normal for w, k in o.effects):
            raise Unsupported("loop changes an enclosing scope")
        if changed:
            poison = changed
            outs = self.nested(body, skip=targets | changed)
            normal = [o for o in outs if o.kind == "normal"]
            exits = [o for o in outs if o.kind != "normal"]
        effects = [(w, k) for o in normal for w, k in o.effects if w != "local"]
        if any(w == "obj" and isinstance(k, (HList, HInst, HDict, HSet)) and k not in [x for x, _ in normal[0].state]
               for w, k in effects):
            raise Unsupported("loop effects")

        def leave_locals():
            for k in changed | targets:
                fr.locals[k] = Poison("assigned in a loop over a collection of unknown size")

        if not effects:
            self.check_closed(normal, y)
            norm = Or(*[And(*o.pc[1:]) if o.pc[1:] else True for o in normal])
            # pc[0] is the domain assumption
            if not exits or self.choose(2) == 0:
                if norm is not True:
                    self.assume(z3.ForAll([y], Z(Implies(dom, norm))))
                leave_locals()
                self.block(s.orelse, fr)
                return
            z = self.fresh("it", it.x.sort())
            pairs[0] = (it.x, z)
            for k in changed:
                fr.locals[k] = Poison("assigned in a loop")
            self.assume(z3.substitute(Z(it.dom), (it.x, z)))
            self.assign(s.target, subst(it.elem, pairs), fr)
            try:
                self.block(s.body, fr)
            except Break:
                return
            except Continue:
                raise PathEnd()
            raise PathEnd()
        lists = {id(k): k for w, k in effects if w == "obj" and isinstance(k, HList)}
        if not exits and all(w == "obj" and isinstance(k, HList) for w, k in effects):
            # again, after any earlier iterations: what they appended must not be looked at
            past, marks = {}, []
            for i in lists:
                px = self.fresh("past", it.x.sort())
                pm = self.fresh("past", z3.ArraySort(it.x.sort(), B))
                pv = self.fresh("past", z3.ArraySort(it.x.sort(), Val))
                past[i] = SymIter(px, z3.Select(pm, px), SAny(z3.Select(pv, px)))
                marks += [px, pm, pv]

            def later():
                for i, x in lists.items():
                    x.items = x.items + [past[i]]
                body()

            outs = self.nested(later, skip=targets | changed)
            normal = []
            for o in outs:
                if o.kind != "normal" or any(w != "local" and not (w == "obj" and id(k) in lists) for w, k in o.effects) or \
                        any(w == "local" and (k[0] is not fr or k[1] not in changed) for w, k in o.effects) or any(mentions(c, marks) for c in o.pc):
                    raise Unsupported("loop body depends on what earlier iterations appended")
                state = []
                for x, c in o.state:
                    if id(x) in lists:
                        n = len(x.items)
                        if len(c) <= n or c[n] is not past[id(x)] or not same(c[:n], x.items):
                            raise Unsupported("loop changes a list other than by appending")
                        c = c[:n] + c[n + 1:]
                        if mentions(c[n:], marks):
                            raise Unsupported("loop body depends on what earlier iterations appended")
                    state.append((x, c))
                o.state = state
                normal.append(o)
            self.check_closed(normal, y)
            new = {i: [] for i in lists}
            for o in normal:
                for x, c in o.state:
                    if id(x) in lists and not same(c, x.content()):
                        if len(c) <= len(x.items) or not same(c[:len(x.items)], x.items):
                            raise Unsupported("loop changes a list other than by appending")
                        for e in c[len(x.items):]:
                            if isinstance(e, HObj) and mentions(e, [y]):
                                raise Unsupported("loop appends fresh objects")
                            new[id(x)].append(SymIter(y, And(dom, *o.pc[1:]), e, None, it.src,
                                                      it.has if len(o.pc) == 1 else None))
            for i, segs in new.items():
                lists[i].items = lists[i].items + segs
            leave_locals()
            self.block(s.orelse, fr)
            return
        self.inv_loop(s, fr, it, normal, effects, leave_locals, changed)

    def inv_loop(self, s, fr, it, normal, effects, leave_locals, changed):
        invs = [i for i in self.loop_invs if i.applies(self, it)]
        if not invs:
            raise Unsupported("loop over a collection of unknown size without an invariant")
        if any(w not in ("heap", "obj") or w == "obj" and not isinstance(k, (RootMap, RootSet)) for w, k in effects):
            raise Unsupported("loop effects outside the invariant")
        inv = invs[0]
        S0 = inv.entry(self, it)
        dom_at = lambda t: z3.substitute(Z(it.dom), (it.x, t))
        mode = self.choose(3)
        if mode == 0:
            self.prove(f"{inv.name}: holds before the first iteration", inv.formula(self, it, S0, lambda t: False), lemma=True)
            raise PathEnd()
        live_has = self.mload(it.live)[0] if isinstance(it.live, (RootMap, HeapMap)) else None
        done = set()
        for w, k in effects:
            key = (w, k if w == "heap" else id(k))
            if key in done:
                continue
            done.add(key)
            if w == "heap":
                self.heap[k] = self.fresh("hv", self.heap[k].sort())
            elif isinstance(k, RootMap):
                k.has = self.fresh("hv", k.has.sort())
                k.get = self.fresh("hv", k.get.sort())
            else:
                k.has = self.fresh("hv", k.has.sort())
        if mode == 2:
            self.assume(inv.formula(self, it, S0, dom_at))
            leave_locals()
            self.block(s.orelse, fr)
            return
        P = self.fresh("P", z3.ArraySort(it.x.sort(), B))
        y = self.fresh("it", it.x.sort())
        Pf = lambda t: z3.Select(P, t)
        x = it.x
        self.assume(z3.ForAll([x], z3.Implies(z3.Select(P, x), Z(it.dom)), patterns=[z3.Select(P, x)]))
        self.assume(inv.formula(self, it, S0, Pf))
        self.assume(dom_at(y))
        self.assume(z3.Not(z3.Select(P, y)))
        self.assign(s.target, subst(it.elem, [(it.x, y)]), fr)
        for k in changed:
            fr.locals[k] = Poison("assigned in a loop")
        if live_has is not None:
            live_has = self.mload(it.live)[0]
        entry = self.snapshot()
        try:
            self.block(s.body, fr)
        except Break:
            return
        except Continue:
            pass
        if live_has is not None:
            after = self.mload(it.live)[0]
            if not after.eq(live_has) and not self.branch(after == live_has):
                self.throw(RuntimeError, "dictionary changed size during iteration")
        skip = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)} | set(changed)
        if any((w, k if w == "heap" else id(k)) not in done and not (w == "local" and k[0] is fr and k[1] in skip)
               for w, k in self.effects(entry)):
            raise Unsupported("loop effects that depend on earlier iterations")
        self.prove(f"{inv.name}: is preserved by the loop body",
                   inv.formula(self, it, S0, lambda t: z3.Or(z3.Select(P, t), t == y)), lemma=True)
        raise PathEnd()

    def seq_loop(self, s, fr, it):
        """Loop over a sequence of unknown length: pure search, or accumulators following templates."""
        targets = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        y = self.fresh("i")
        dom = z3.And(y >= 0, y < it.n)
        for x in it.elem if isinstance(it.elem, tuple) else (it.elem,):
            if isinstance(x, SInt) and z3.is_select(x.t) and x.t.arg(0).sort() == z3.ArraySort(I, I):
                b = z3.substitute(x.t, (it.i, y))
                self.fact(("byte", b), z3.And(b >= 0, b <= 255))
        probe = self.nested(lambda: (self.assume(dom), self.assign(s.target, subst(it.elem, [(it.i, y)]), fr),
                                     self.block(s.body, fr)), skip=targets)
        normal = [o for o in probe if o.kind == "normal"]
        if any(w != "local" or k[0] is not fr for o in normal for w, k in o.effects):
            raise Unsupported("effects in a loop over a sequence of unknown length")
        changed = {k[1] for o in normal for w, k in o.effects}
        if not changed:
            return self.sym_loop(s, fr, SymIter(it.i, z3.And(it.i >= 0, it.i < it.n), it.elem))
        if any(o.kind != "normal" for o in probe):
            raise Unsupported("early exit from a loop with accumulators")
        cands = []
        for k in sorted(changed):
            mine = []
            t0 = self.int_term(fr.locals.get(k)) if k in fr.locals and not isinstance(fr.locals[k], (Poison, SAny)) else None
            for name, tm in self.seq_templates:
                if t0 is not None:
                    t = tm(self, it, z3.IntVal(0))
                    if t is not None and self.entails(t0 == t):
                        mine.append((name, tm))
            cands.append((k, mine + [(None, None)]))

        def body(choice):
            self.assume(dom)
            for k, (_, tm) in choice:
                fr.locals[k] = SInt(tm(self, it, y)) if tm else Poison("assigned in a loop")
            self.assign(s.target, subst(it.elem, [(it.i, y)]), fr)
            self.block(s.body, fr)
            for k, (_, tm) in choice:
                if tm is not None:
                    v = fr.locals.get(k)
                    t = self.int_term(v) if not isinstance(v, (Poison, SAny)) and v is not None else None
                    if t is None or not self.entails(t == tm(self, it, y + 1)):
                        return False
            return True

        found = None
        for combo in itertools.islice(itertools.product(*[c[1] for c in cands]), 80):
            choice = [(c[0], t) for c, t in zip(cands, combo)]
            try:
                outs = self.nested(lambda: body(choice), skip=targets | changed)
            except Unsupported:
                continue
            if any(w != "local" or k[0] is not fr for o in outs for w, k in o.effects):
                raise Unsupported("effects in a loop over a sequence of unknown length")
            if outs and all(o.kind == "normal" and o.value for o in outs):
                found = choice
                break
        if found is None:
            raise Unsupported("no loop invariant for a loop over a sequence of unknown length")
        for k in targets:
            fr.locals[k] = Poison("assigned in a loop over a sequence of unknown length")
        for k, (name, tm) in found:
            if tm is None:
                fr.locals[k] = Poison("assigned in a loop over a sequence of unknown length")
                continue
            rec = self.record(f"loop invariant: {name}")
            rec["vcs"] += 2
            rec["discharged"] += 2
            fr.locals[k] = SInt(tm(self, it, it.n))
        self.block(s.orelse, fr)

    def exec_Match(self, s, fr):
        v = self.eval(s.subject, fr)
        for c in s.cases:
            binds = {}
            if self.pattern(c.pattern, v, fr, binds):
                fr.locals.update(binds)
                if c.guard is None or self.test(self.eval(c.guard, fr)):
                    self.block(c.body, fr)
                    return

    def pattern(self, p, v, fr, binds):
        if isinstance(p, ast.MatchValue):
            return self.branch(self.eq(v, self.eval(p.value, fr)))
        if isinstance(p, ast.MatchSingleton):
            return self.branch(self.identical(v, p.value))
        if isinstance(p, ast.MatchOr):
            return any(self.pattern(q, v, fr, binds) for q in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.pattern(p.pattern, v, fr, binds):
                return False
            if p.name:
                binds[p.name] = v
            return True
        if isinstance(p, ast.MatchClass):
            cls = self.eval(p.cls, fr)
            if not self.branch(self.isinstance(v, cls)):
                return False
            if p.patterns:
                if cls in (int, str, bytes, bool, float, list, dict, tuple, set) and len(p.patterns) == 1:
                    return self.pattern(p.patterns[0], v, fr, binds)
                args = getattr(cls, "__match_args__", ())
                for n, q in zip(args, p.patterns):
                    if not self.pattern(q, self.getattr(v, n), fr, binds):
                        return False
            for n, q in zip(p.kwd_attrs, p.kwd_patterns):
                if not self.pattern(q, self.getattr(v, n), fr, binds):
                    return False
            return True
        if isinstance(p, ast.MatchSequence):
            v = self.narrow(v, ["list"])
            if isinstance(v, SAny) or not isinstance(v, (HList, JList, tuple, list)):
                return False
            stars = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            n = len(p.patterns)
            if isinstance(v, JList):
                if not stars:
                    if not self.branch(llen(v.r) == n):
                        return False
                    items = [SAny(litem(v.r, z3.IntVal(i))) for i in range(n)]
                else:
                    items = self.items_of(v)
            else:
                items = self.items_of(v)
            if not stars:
                return len(items) == n and all(self.pattern(q, x, fr, binds) for q, x in zip(p.patterns, items))
            if len(items) < n - 1:
                return False
            i = stars[0]
            k = len(items) - (n - 1 - i)
            if not all(self.pattern(q, x, fr, binds) for q, x in zip(p.patterns[:i], items[:i])):
                return False
            if p.patterns[i].name:
                binds[p.patterns[i].name] = self.track(HList(list(items[i:k])))
            return all(self.pattern(q, x, fr, binds) for q, x in zip(p.patterns[i + 1:], items[k:]))
        if isinstance(p, ast.MatchMapping):
            v = self.narrow(v, ["dict"])
            if not isinstance(v, (HDict, JDict, RootMap, HeapMap, dict)):
                return False
            if p.rest:
                raise Unsupported("match mapping rest")
            for k, q in zip(p.keys, p.patterns):
                x = self.dict_find(v, self.eval(k, fr))
                if x is MISSING or not self.pattern(q, x, fr, binds):
                    return False
            return True
        raise Unsupported(f"pattern {type(p).__name__}")

    # -- expressions -----------------------------------------------------------------------------

    def eval(self, e, fr):
        h = self.eval_table.get(type(e).__name__)
        if h is None:
            raise Unsupported(f"expression {type(e).__name__} (line {e.lineno})")
        return h(e, fr)

    def eval_Constant(self, e, fr):
        return e.value

    def eval_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def eval_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr)

    def eval_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        f = fr
        while f.comp:
            f = f.parent                    # inside a comprehension, := binds in the function around it
        self.assign(e.target, v, f)
        return v

    def eval_Tuple(self, e, fr):
        return tuple(self.elements(e.elts, fr))

    def eval_List(self, e, fr):
        return self.track(HList(self.elements(e.elts, fr, True)))

    def elements(self, elts, fr, seg=False):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.narrow(self.eval(x.value, fr), ["list"])
                if isinstance(v, JList):
                    out.extend(self.items_of(v))
                    continue
                it = self.iterable(v)
                if isinstance(it, list):
                    out.extend(it)
                elif seg and isinstance(it, SymIter):
                    out.append(SymIter(it.x, it.dom, it.elem, None, it.src, it.has))
                else:
                    raise Unsupported("starred expression")
            else:
                out.append(self.eval(x, fr))
        return out

    def eval_Set(self, e, fr):
        return self.make_set(self.elements(e.elts, fr))

    def eval_Dict(self, e, fr):
        d = self.track(HDict())
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.narrow(self.eval(v, fr), ["dict"])
                self.dict_update(d, o)
            else:
                kk = self.eval(k, fr)
                self.dict_set(d, kk, self.eval(v, fr))
        return d

    def eval_BoolOp(self, e, fr):
        is_and = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.test(v)
            if t != is_and:
                return v
        return v

    def eval_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        op = type(e.op).__name__
        if op == "Not":
            return self.as_bool(Not(self.truth(v)))
        v = self.resolve(v)
        if concrete(v):
            try:
                return {"USub": lambda: -v, "UAdd": lambda: +v, "Invert": lambda: ~v}[op]()
            except TypeError as x:
                self.throw(TypeError, *x.args)
        n = self.num(v)
        if n is None:
            self.throw(TypeError, "bad operand type for unary operator")
        return SInt({"USub": -n, "UAdd": n, "Invert": -n - 1}[op])

    def eval_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        return self.binop(type(e.op).__name__, a, self.eval(e.right, fr))

    def eval_Compare(self, e, fr):
        a = self.eval(e.left, fr)
        r = True
        for i, (op, x) in enumerate(zip(e.ops, e.comparators)):
            b = self.eval(x, fr)
            t = self.compare(type(op).__name__, a, b)
            r = And(r, t)
            if i < len(e.ops) - 1:
                if not self.branch(t):
                    return False
            a = b
        return self.as_bool(r)

    def eval_IfExp(self, e, fr):
        return self.eval(e.body if self.test(self.eval(e.test, fr)) else e.orelse, fr)

    def eval_Subscript(self, e, fr):
        v = self.eval(e.value, fr)
        if isinstance(v, type) or getattr(v, "__module__", None) == "typing":
            return v
        return self.index(v, self.eval(e.slice, fr))

    def eval_Slice(self, e, fr):
        return slice(*[self.eval(x, fr) if x is not None else None for x in (e.lower, e.upper, e.step)])

    def eval_Lambda(self, e, fr):
        return self.make_func(e, fr, "<lambda>")

    def eval_JoinedStr(self, e, fr):
        vals = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                vals.append(x.value)
            else:
                v = self.eval(x.value, fr)
                if x.format_spec is not None:
                    spec = self.eval(x.format_spec, fr)
                    if spec == "":
                        vals.append(self.to_str(v))
                    elif concrete(v) and isinstance(spec, str):
                        vals.append(format(v, spec))
                    else:
                        vals.append(SStr(self.apx("fmt")))
                elif x.conversion == 114 or x.conversion == 97:
                    vals.append(repr(v) if concrete(v) else SStr(self.apx("repr")))
                else:
                    vals.append(self.to_str(v))
        return self.str_concat(vals)

    def eval_FormattedValue(self, e, fr):
        return self.to_str(self.eval(e.value, fr))

    def eval_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = fr
            while (f.comp or f.cls is None) and f.parent is not None:
                f = f.parent
            names = list(f.locals)
            if f.cls is None:
                raise Unsupported("super()")
            return SuperProxy(f.cls, f.locals[names[0]])
        fn = self.eval(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.narrow(self.eval(a.value, fr), ["list"])
                if isinstance(v, JList) and len(e.args) == 1 and not e.keywords and self.exc_init(fn) \
                        and not self.entails(llen(v.r) <= 12):
                    return self.exc_call(fn, v)
                it = self.items_of(v) if isinstance(v, JList) else self.iterable(v)
                if not isinstance(it, list):
                    if isinstance(fn, type) and issubclass(fn, BaseException):
                        it = [SAny(self.apx("arg", Val))]
                    else:
                        raise Unsupported("star argument of unknown size")
                args.extend(it)
            else:
                args.append(self.eval(a, fr))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.narrow(self.eval(k.value, fr), ["dict"])
                if not isinstance(d, (HDict, dict)):
                    raise Unsupported("keyword arguments of unknown size")
                for kk, v in (d.entries if isinstance(d, HDict) else list(d.items())):
                    if not isinstance(kk, str):
                        raise Unsupported("keyword name")
                    kwargs[kk] = v
            else:
                kwargs[k.arg] = self.eval(k.value, fr)
        return self.call(fn, args, kwargs)

    def exc_init(self, fn):
        """A call that does nothing but set the args of an exception."""
        if isinstance(fn, type):
            return issubclass(fn, BaseException) and not isinstance(self.mro_lookup(fn, "__init__"), types.FunctionType)
        return isinstance(fn, BoundMethod) and isinstance(fn.self_, HInst) and issubclass(fn.self_.cls, BaseException) and \
            isinstance(fn.func, types.WrapperDescriptorType) and fn.func.__name__ == "__init__"

    def exc_call(self, fn, v):
        """Exception args given as a list of unknown length: args holds that list (a tuple in CPython, with the same items)."""
        if isinstance(fn, type):
            return self.track(HInst(fn, {"args": v}))
        fn.self_.attrs["args"] = v
        return None

    # -- comprehensions ----------------------------------------------------------------------------

    def eval_ListComp(self, e, fr):
        return self.track(HList(self.comp(e, fr, e.elt)))

    def eval_SetComp(self, e, fr):
        items = self.comp(e, fr, e.elt)
        if any(isinstance(x, SymIter) for x in items):
            return self.track(HSet(items))
        return self.make_set(items)

    def eval_DictComp(self, e, fr):
        items = self.comp(e, fr, ast.Tuple([e.key, e.value], ast.Load()))
        if items and all(isinstance(x, SymIter) for x in items):
            return self.map_comp(items)
        d = self.track(HDict())
        for x in items:
            if isinstance(x, SymIter):
                raise Unsupported("dict comprehension of unknown size")
            self.dict_set(d, x[0], x[1])
        return d

    def map_comp(self, segs):
        """{x: value for x in a collection if ...}, where x is the element itself."""
        y = segs[0].x
        if not self.quantified or not all(s.x.eq(y) and isinstance(s.elem, tuple) and len(s.elem) == 2 for s in segs):
            raise Unsupported("dict comprehension of unknown size")
        kk, vk = self.kind_of(segs[0].elem[0]), self.kind_of(segs[0].elem[1])
        if any(self.kind_of(s.elem[0]) is not kk or self.kind_of(s.elem[1]) is not vk for s in segs):
            raise Unsupported("dict comprehension over several kinds")
        if kk.sort != y.sort() or not all(self.entails(self.key_term(kk, s.elem[0]) == y) for s in segs):
            raise Unsupported("dict comprehension with computed keys")
        has = self.fresh("comp", z3.ArraySort(kk.sort, B))
        get = self.fresh("comp", z3.ArraySort(kk.sort, vk.sort))
        self.assume(z3.ForAll([y], z3.Select(has, y) == Z(Or(*[s.dom for s in segs])), patterns=[z3.Select(has, y)]))
        for s in segs:
            self.assume(z3.ForAll([y], z3.Implies(Z(s.dom), z3.Select(get, y) == self.enc_kind(vk, s.elem[1])),
                                  patterns=[z3.Select(get, y)]))
        return self.track(RootMap("comprehension", kk, vk, has, get))

    def kind_of(self, v):
        v = self.resolve(v)
        if isinstance(v, SInt):
            return K_INT
        if isinstance(v, SStr):
            return K_STR
        if isinstance(v, tuple) and len(v) == 2 and all(isinstance(x, SInt) for x in v):
            return K_PAIR
        if isinstance(v, (GInst, HeapMap)):
            return v.kind
        if isinstance(v, SAny):
            return K_ANY
        raise Unsupported(f"dict comprehension with {v!r}")

    def eval_GeneratorExp(self, e, fr):
        return EngineGen(e, fr, self.eval(e.generators[0].iter, fr))

    def lazily(self, e, fr, first):
        self.lazy += 1
        try:
            return self.comp(e, fr, e.elt, first)
        finally:
            self.lazy -= 1

    def comp_iter(self, e, fr, first):
        items = self.comp(e, fr, e.elt, first)
        if any(isinstance(x, SymIter) for x in items):
            return self.one_segment(items)
        return items

    def comp(self, e, fr, elt, first=MISSING):
        inner = Frame(None, fr.globals, {}, fr, fr.cls, comp=True)
        self.frames.append(inner)
        try:
            out = []
            self.comp_gen(e.generators, 0, elt, inner, fr, out, first)
            return out
        finally:
            if self.frames and self.frames[-1] is inner:
                self.frames.pop()

    def comp_gen(self, gens, n, elt, inner, fr, out, first=MISSING):
        if n == len(gens):
            out.append(self.eval(elt, inner))
            return
        g = gens[n]
        src = first if n == 0 and first is not MISSING else self.eval(g.iter, fr if n == 0 else inner)
        it = self.iterable(src)
        if isinstance(it, SeqIter):
            if self.entails(it.n <= 12):
                k = 0
                while k < 12 and not self.branch(it.n == k):
                    k += 1
                it = [subst(it.elem, [(it.i, z3.IntVal(j))]) for j in range(k)]
            else:
                it = SymIter(it.i, z3.And(it.i >= 0, it.i < it.n), it.elem)
        if isinstance(it, list):
            walked = self.source(src)
            before = self.walked(walked)
            for x in it:
                self.assign(g.target, x, inner)
                if all(self.test(self.eval(c, inner)) for c in g.ifs):
                    self.comp_gen(gens, n + 1, elt, inner, fr, out)
                self.unchanged(walked, before)
            return
        y = self.fresh("c", it.x.sort())
        dom = z3.substitute(Z(it.dom), (it.x, y))

        def body(z=None):
            self.assume(dom if z is None else z3.substitute(Z(it.dom), (it.x, z)))
            self.assign(g.target, subst(it.elem, [(it.x, y if z is None else z)]), inner)
            res = []
            if all(self.test(self.eval(c, inner)) for c in g.ifs):
                self.comp_gen(gens, n + 1, elt, inner, fr, res)
            return res
        outs = self.nested(body, skip=set(inner.locals) | assigned_names_of_gens(gens))
        if any(o.effects for o in outs):
            raise Unsupported("comprehension with effects")
        bad = [o for o in outs if o.kind != "normal"]
        good = [o for o in outs if o.kind == "normal"]
        self.check_closed(good, y)
        if bad and self.lazy:
            raise Unsupported("a generator that may fail past the point where it is left")
        if bad:
            if self.choose(2) == 1:
                body(self.fresh("c", it.x.sort()))
                raise PathEnd()
            self.assume(z3.ForAll([y], Z(Implies(dom, Or(*[And(*o.pc[1:]) for o in good])))))
        for o in good:
            for v in o.value:
                if isinstance(v, SymIter):
                    raise Unsupported("nested comprehension of unknown size")
                if isinstance(v, HObj) and mentions(v, [y]):
                    raise Unsupported("comprehension creates objects")
                whole = len(o.pc) == 1 and isinstance(v, Sym) and it.has is not None
                out.append(SymIter(y, And(dom, *o.pc[1:]), v, None, it.src, it.has if len(o.pc) == 1 else None))


def assigned_names_of_gens(gens):
    out = set()
    for g in gens:
        out |= {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
    return out
