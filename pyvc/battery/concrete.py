"""Functions of no unknowns: what the verifier makes of them must be what Python makes of them."""
F=[]
def t(*args):
    def d(fn):
        F.append((fn,args)); return fn
    return d

@t([1,2,3,4])
def list_mut_iter(xs):
    xs=list(xs)
    out=[]
    for x in xs:
        out.append(x)
        if x==2: xs.remove(2)
    return out
@t([1,2,3,4])
def list_append_iter(xs):
    xs=list(xs)
    for x in xs:
        if len(xs)<7: xs.append(x)
    return xs
@t({"a":1,"b":2})
def dict_mut_iter(d):
    d=dict(d)
    try:
        for k in d:
            d[k+"x"]=1
    except RuntimeError:
        return "rt"
    return d
@t({"a":1,"b":2})
def dict_del_iter(d):
    d=dict(d)
    try:
        for k in d:
            del d[k]
    except RuntimeError:
        return "rt"
    return d
@t({"a":1,"b":2})
def dict_set_same(d):
    d=dict(d)
    for k in d: d[k]=5
    return d
@t({"a":1,"b":2})
def dict_view_live(d):
    d=dict(d)
    ks=d.keys(); vs=d.values(); it=d.items()
    d["c"]=3
    return list(ks),list(vs),list(it),len(ks),"c" in ks
@t()
def closure_late():
    fs=[]
    for i in range(3):
        fs.append(lambda: i)
    return [f() for f in fs]
@t()
def default_mut():
    def f(x,acc=[]):
        acc.append(x); return acc
    f(1); return f(2)
@t()
def walrus_comp():
    last=None
    r=[last:=x for x in [1,2,3]]
    return r,last
@t()
def comp_scope():
    x=5
    r=[x for x in range(3)]
    return r,x
@t()
def try_finally():
    out=[]
    def f():
        try:
            return out.append(1) or "a"
        finally:
            out.append(2)
    r=f()
    return r,out
@t()
def finally_override():
    def f():
        try:
            raise ValueError("x")
        finally:
            return 5
    return f()
@t()
def nested_exc():
    try:
        try:
            raise KeyError("a")
        except KeyError as e:
            raise ValueError("b") from e
    except ValueError as e2:
        return type(e2.__cause__).__name__, e2.args
@t()
def exc_unbound():
    try:
        raise KeyError("a")
    except KeyError as e:
        pass
    try:
        return e
    except NameError:
        return "unbound"
@t()
def unbound_local():
    try:
        if False: y=1
        return y
    except UnboundLocalError:
        return "u"
@t()
def loop_else():
    out=[]
    for x in [1,2]:
        if x==3: break
    else: out.append("e")
    for x in [1,2]:
        if x==2: break
    else: out.append("f")
    while False: pass
    else: out.append("g")
    return out
@t()
def chain_cmp():
    out=[]
    def g(x): out.append(x); return x
    r=g(1)<g(3)>g(2)!=g(2)
    return r,out
@t()
def bool_ops():
    return (0 or "", None and 1, [] or {}, 1 and 2, not [], not 0, "" or None)
@t()
def int_bool():
    return (True+True, isinstance(True,int), True==1, {1:"a",True:"b"}, {True:1,1.0:2}, 1 in {True}, type(True) is int)
@t()
def floats():
    return (1==1.0, 3//2, -3//2, -3%5, 3%-5, 7/2, 2**-1, int(2.9), int(-2.9), round(2.5), round(3.5), divmod(-7,3))
@t()
def bits():
    return (5&3,5|3,5^3,~5,1<<10,-1>>1,0xff&~0xf,(1<<53)-1)
@t()
def strs():
    s=" aBc.d "
    return (s.strip(),s.upper(),s.lower(),s.split("."),s.replace("a","b"),s[1:3],s[::-1],s[-2],"x".join(["a","b"]),s.find("c"),"b" in s,s.startswith(" a"),s.endswith("d "),"%s-%d"%("a",3),f"{3:03d}",f"{'a'!r}","a"*3,len("é"),"é".encode(),s.partition("."),s.rpartition("."),"abc".index("b"),"a,b,,c".split(","),"  a b ".split(),"A".isupper(),"ß".casefold(),"x".removeprefix("x"),"abc".removesuffix("c"), "a" < "b", "a"<"B")
@t()
def byts():
    b=b"\x01\x02\xff"
    return (b[0],b[1:],list(b),b.hex(),bytes([1,2]),int.from_bytes(b,"big"),int.from_bytes(b,"little",signed=True),(258).to_bytes(2,"big"),b+b"x",b==bytearray(b),bytes(3),b"a".decode(),b.startswith(b"\x01"), bytes.fromhex("00ff"))
@t()
def lists():
    a=[3,1,2]
    b=a
    b+= [4]
    c=a+[5]
    c.insert(0,9); c.pop(); c.pop(0)
    a.sort(); d=sorted(a,reverse=True); a.reverse()
    e=a[:]
    e[1:2]=[7,7]
    del e[0]
    e.extend((8,))
    return a,b,c,d,e,a is b,a.index(3),a.count(1),[1]*2,[1,2]<[1,3],[1]==[1.0],min(a),max(a),sum(a),any(a),all([])
@t()
def slices():
    a=list(range(6))
    return a[1:],a[:-1],a[::2],a[-3:],a[10:],a[4:2],a[::-2]
@t()
def dicts():
    d={"b":1,"a":2}
    e=d.copy(); e["c"]=3
    d.update({"b":5},z=1)
    f={**d,**{"a":0}}
    g=d|{"q":1}
    h=d.setdefault("n",[]); h.append(1)
    p=d.pop("z"); q=d.pop("zz",None)
    try: d.pop("zz")
    except KeyError as x: r=x.args
    it=d.popitem()
    return d,e,f,g,h,p,q,r,it,list(d),list(reversed(d)),dict.fromkeys("ab",0),dict([("a",1)]),d.get("zz"),"a" in d,len(d),{k:v for k,v in d.items() if v==2}
@t()
def sets():
    s={1,2}
    u=s; u.add(3)
    s.discard(9)
    try: s.remove(9)
    except KeyError: r=1
    a=s|{4}; b=s&{1}; c=s-{1}; d=s^{1,9}
    s-= {2}
    return sorted(s),sorted(a),sorted(b),sorted(c),sorted(d),r,s<=a,s==u,s is u,frozenset([1])=={1},sorted({*s,7}), s.isdisjoint({5}), s.issubset(a)
@t()
def unpack():
    a,*b,c=[1,2,3,4]
    (d,e),f=(1,2),3
    [g]=[5]
    try:
        x,y=[1]
    except ValueError: z="v"
    return a,b,c,d,e,f,g,z
@t()
def swap():
    a=[0,1,2]; i=0
    i,a[i]=1,9
    return i,a
@t()
def aug():
    d={"a":[1]}
    d["a"]+= [2]
    t=[0]
    t[0]+=5; t[0]<<=2; t[0]%=7
    return d,t
@t()
def args_kw():
    def f(a,b=2,*c,d=4,**e): return a,b,c,d,e
    return f(1),f(1,3,5,6,d=7,x=8),f(*[1,2,3],**{"d":1,"y":2})
@t()
def kwonly_err():
    def f(a,*,b): return a,b
    try: f(1,2)
    except TypeError: pass
    else: return "no"
    try: f(1)
    except TypeError: pass
    else: return "no"
    return f(1,b=2)
class P:
    n=0
    def __init__(self,x): self.x=x
    def __eq__(self,o): return isinstance(o,P) and o.x==self.x
    def __hash__(self): return hash(self.x)
    def __repr__(self): return f"P({self.x})"
    def __len__(self): return self.x
    def __contains__(self,y): return y==self.x
    def __getitem__(self,i):
        if i>2: raise IndexError
        return i*self.x
    def __call__(self,y): return self.x+y
    @property
    def p(self): return self.x*2
    @p.setter
    def p(self,v): self.x=v
    @classmethod
    def mk(cls,x): return cls(x+1)
    @staticmethod
    def st(x): return x+2
class Q(P):
    def __init__(self,x): super().__init__(x); self.y=1
    def __lt__(self,o): return self.x<o.x
@t()
def classes():
    a=P(3); b=P.mk(2); 
    a.n+=1
    q=Q(0); q.p=9
    return a==b,a!=b,len({a,b}),a.p,P.st(1),bool(Q(0)),bool(P(1)),3 in a,a[1],a(4),a.n,P.n,repr(a),q.x,q.y,isinstance(q,P),issubclass(Q,P),type(q).__name__,Q(1)<Q(2),hasattr(a,"zz"),getattr(a,"zz",5), list(P(2))
@t()
def class_attr_shared():
    class A:
        xs=[]
        y=1
    a,b=A(),A()
    a.xs.append(1); a.y=2
    return b.xs,b.y,A.y
@t()
def gens():
    def g(n):
        for i in range(n):
            x=yield i
    def h():
        yield from g(2)
        return 5
    return list(g(3)),list(h()),next(g(1)),next(g(0),None),sum(x for x in g(4)),[*zip(g(2),g(3))],list(enumerate("ab",1)),dict(zip("ab",[1,2])),list(map(str,[1])),list(filter(None,[0,1])),list(reversed([1,2])),any(x>1 for x in g(3))
@t()
def gen_lazy():
    out=[]
    def g():
        for i in range(3):
            out.append(i); yield i
    r=any(x==1 for x in g())
    return r,out
@t()
def match_():
    def f(v):
        match v:
            case 1|2: return "a"
            case [x,y]: return ("l",x,y)
            case [x,*r]: return ("m",x,r)
            case {"k":z}: return ("d",z)
            case str(): return "s"
            case P(x=5): return "P"
            case None: return "n"
            case int(n) if n>5: return ("i",n)
            case _: return "o"
    return [f(v) for v in (1,2,[1,2],[1,2,3],(4,5),{"k":1,"z":2},"ab",P(5),P(6),None,7,3,True,1.0,[])]
@t()
def isinst():
    return [isinstance(x,(int,str)) for x in (1,"a",1.0,True,None)],[type(x).__name__ for x in (1,"a",1.0,True,None,[],(),{},set(),b"")]
@t()
def eqs():
    return ([1]==(1,), 1=="1", None==0, b"a"=="a", (1,2)==(1,2), {"a":1}=={"a":1.0}, {1,2}=={2,1}, [1,[2]]==[1,[2]], float("nan")==float("nan"), [] is [], "a"!="b", 0==False, ""==None)
@t()
def globals_del():
    x=1
    del x
    try: return x
    except UnboundLocalError: return "d"
@t()
def errors():
    out=[]
    for f in (lambda: [][0], lambda: {}["a"], lambda: 1+"a", lambda: None.x, lambda: int("x"), lambda: 1/0, lambda: "a"+1, lambda: len(5), lambda: {[]:1}, lambda: "a".foo, lambda: (1,2)[5], lambda: None+1, lambda: 1<"a", lambda: b"\xff".decode(), lambda: bytes([256]), lambda: "é".encode("ascii"), lambda: chr(-1), lambda: int.from_bytes("a"), lambda: next(iter([])), lambda: [1].remove(2), lambda: "a".index("b"), lambda: {1}.remove(3), lambda: ().x, lambda: list(5), lambda: dict(5), lambda: "a" in 5, lambda: 5 in "a", lambda: max([]), lambda: sorted([1,"a"]), lambda: float("x"), lambda: 1<<-1, lambda: [1]*"a", lambda: not_defined):
        try: f()
        except Exception as e: out.append(type(e).__name__)
        else: out.append(None)
    return out
@t()
def exc_hier():
    out=[]
    for e in (KeyError("a"),IndexError("b"),UnicodeDecodeError("utf8",b"",0,1,"x"),StopIteration(),AttributeError("z"),OverflowError(),ZeroDivisionError()):
        try: raise e
        except LookupError: out.append("L")
        except ValueError: out.append("V")
        except ArithmeticError: out.append("A")
        except Exception as x: out.append(type(x).__name__)
    return out
@t()
def reraise():
    out=[]
    try:
        try: raise ValueError("q",1)
        except ValueError as e:
            out.append(str(e)); raise
    except Exception as e: out.append(e.args)
    return out
@t()
def suppress():
    import contextlib
    with contextlib.suppress(KeyError):
        {}["a"]
        return 1
    return 2
@t()
def alias():
    a=[[]]*2
    a[0].append(1)
    b=[[] for _ in range(2)]
    b[0].append(1)
    c=dict.fromkeys("ab",[]); c["a"].append(1)
    return a,b,c
@t()
def copies():
    import copy
    a={"x":[1]}; b=dict(a); c=copy.deepcopy(a); d=copy.copy(a); e=a.copy()
    a["x"].append(2); a["y"]=1
    return b,c,d,e
@t()
def ternary_short():
    out=[]
    def f(x): out.append(x); return x
    r=(f(1) if f(0) else f(2)), f(0) and f(5), f(3) or f(4)
    return r,out
@t()
def while_break():
    n=0; out=[]
    while True:
        n+=1
        if n%2: continue
        if n>6: break
        out.append(n)
    return out,n
@t()
def nonloc():
    x=0
    def f():
        nonlocal x
        x+=1
        return x
    f(); f()
    return x
@t()
def dc():
    from dataclasses import dataclass, field
    @dataclass
    class D:
        a:int
        b:list=field(default_factory=list)
        c:int=3
    x,y=D(1),D(1)
    x.b.append(1)
    return x==y,y.b,D(1,[1])==x,repr(D(2))
@t()
def enum_():
    from enum import Enum
    class E(str,Enum):
        A="a"; B="b"
    return E("a") is E.A,E.A=="a","a" in [e.value for e in E],E.A.value,[e.name for e in E],"a" in ["x",E.A], E.B in ("b",)
@t()
def order_dict():
    d={}
    d["b"]=1; d["a"]=2; del d["b"]; d["b"]=3
    return list(d), next(iter(d)), list(d.items())[-1]
@t()
def setdefault_chain():
    d={}
    for k,v in [("a",1),("b",2),("a",3)]:
        d.setdefault(k,[]).append(v)
    return d
@t()
def defaultd():
    from collections import defaultdict
    d=defaultdict(set)
    d["a"].add(1)
    x="b" in d; y=d.get("c"); d["q"]
    return sorted(d),x,y,len(d)
@t()
def str_num():
    return str(1),str(1.0),str(True),str(None),repr("a'b"),int(" 12 "),int("ff",16),int(True),float("1.5"),"%x"%255,format(255,"b"),hex(255),ord("a"),chr(97),bin(5),"{:>4}".format("a"),"{0}{1}".format(1,2)
@t()
def del_slice():
    a=[1,2,3,4]
    del a[1:3]
    a[5:]=[9]
    a.clear
    b=a.copy(); b.clear()
    return a,b
@t()
def truth():
    return [bool(x) for x in (0,1,-1,0.0,"","a",[],[0],{},{0:0},(),(0,),None,set(),{0},b"",b"\0",float("nan"),range(0))]
@t()
def star_expr():
    a=[1,2]
    return [*a,3],(*a,),{*a},{**{"a":1},"b":2},print
@t()
def ident():
    a=None
    x=1000; y=1000
    return a is None, [] is not None, True is True, (a is not None)
@t()
def lam_default():
    fs=[lambda x=i: x for i in range(3)]
    return [f() for f in fs]
@t()
def recursion():
    def f(n): return 1 if n<2 else n*f(n-1)
    return f(6)
@t()
def cmp_none():
    try: return None<1
    except TypeError: return "t"
@t()
def neg_idx():
    a=[1,2,3]
    a[-1]=9
    try: a[-4]
    except IndexError: return a,a[-3]
@t()
def multi_assign():
    a=b=[]
    a.append(1)
    return b
@t()
def try_else():
    out=[]
    for i in range(2):
        try:
            if i: raise ValueError
        except ValueError: out.append("x")
        else: out.append("e")
        finally: out.append("f")
    return out
@t()
def try_continue():
    out=[]
    for i in range(3):
        try:
            if i==1: continue
            if i==2: break
        finally: out.append(i)
    return out
@t()
def exc_in_else():
    try:
        try: pass
        except ValueError: return "in"
        else: raise ValueError
    except ValueError: return "out"
@t()
def partial_():
    import functools
    f=functools.partial(lambda a,b=1,**k:(a,b,k),5,b=2)
    return f(),f(b=3,c=4),functools.reduce(lambda a,b:a*b,[1,2,3],1)
@t()
def itert():
    import itertools
    return list(itertools.chain([1],[2])),list(itertools.islice([1,2,3],2)),list(itertools.repeat(1,2)),list(itertools.product("ab",[1])),next(itertools.count(3))
@t()
def prop_err():
    class A:
        @property
        def p(self): return 1
    try: A().p=2
    except AttributeError: return "ro"
@t()
def slots():
    class A:
        __slots__=("x",)
    a=A(); a.x=1
    try: a.y=2
    except AttributeError: return a.x
@t()
def super_mro():
    class A:
        def f(self): return ["A"]
    class B(A):
        def f(self): return ["B"]+super().f()
    class C(A):
        def f(self): return ["C"]+super().f()
    class D(B,C):
        def f(self): return ["D"]+super().f()
    return D().f()
@t()
def abstract():
    class A:
        def f(self): raise NotImplementedError()
    try: A().f()
    except RuntimeError: return "nie"
@t()
def deque_():
    from collections import deque
    d=deque([1,2],maxlen=2); d.append(3); d.appendleft(0)
    return list(d),d.popleft()
@t()
def named():
    from collections import namedtuple
    N=namedtuple("N","a b")
    n=N(1,b=2)
    return n.a,n[1],n==(1,2),n._replace(a=5).a,len(n)
@t()
def assertion():
    try: assert 1==2,"m"
    except AssertionError as e: return e.args
@t()
def eq_order():
    out=[]
    class A:
        def __init__(s,n): s.n=n
        def __eq__(s,o): out.append(s.n); return True
        def __hash__(s): return 1
    r=A(1)==A(2); A(3) in [A(4)]
    return r,out
@t()
def str_iter():
    return list("ab"),[c for c in "é\U0001F600"],"ab"[5:],sorted("ba")
@t()
def num_cmp():
    return 2**53+1==float(2**53), 10**20>1e20, int(1e16)+1, True<2, -0.0==0.0, 0.1+0.2==0.3
@t()
def ior():
    d={"a":1}; e=d
    d|={"b":2}
    s={1}; u=s
    s|={2}
    l=[1]; m=l
    l*=2
    return e,sorted(u),m
