"""Functions of one value the verifier is told nothing of but assumptions that fix it."""
S=[]
def s(fn): S.append(fn); return fn
VALUES=[None,True,False,0,1,-3,2**53,2**53+1,1.5,"","a","ab",b"",b"x",[],[1],[1,2],["a","b"],["a",1],[None],[[1]],[{}],[True,1],{}, {"a":1},{"a":1,"b":2},{"b":"x"},{"a":None},{"a":{"b":1}},{1:2},{"a":[1,2]},[1,2,3],["a","a"],[{"a":1},{"a":2}],{"x":0,"y":""},[1,"a",{},[]]]
@s
def is_int(v): return isinstance(v,int)
@s
def is_strict(v): return isinstance(v,int) and not isinstance(v,bool)
@s
def truthy(v): return bool(v)
@s
def or_default(v): return v or "d"
@s
def length(v): return len(v)
@s
def first(v): return v[0]
@s
def last(v): return v[-1]
@s
def key_a(v): return v["a"]
@s
def get_a(v): return v.get("a")
@s
def get_a_def(v): return v.get("a","none")
@s
def in_a(v): return "a" in v
@s
def in_1(v): return 1 in v
@s
def eq_1(v): return v==1
@s
def eq_true(v): return v is True
@s
def lt_5(v): return v<5
@s
def plus1(v): return v+1
@s
def neg(v): return -v
@s
def range_(v): return 1<=v<=2**53
@s
def all_str(v): return all(isinstance(x,str) for x in v)
@s
def any_int(v): return any(isinstance(x,int) for x in v)
@s
def all_keys_str(v): return all(isinstance(k,str) for k in v)
@s
def all_vals_int(v): return all(isinstance(x,int) for x in v.values())
@s
def loop_check(v):
    for x in v:
        if not isinstance(x,str): raise ValueError("x")
    return v
@s
def loop_find(v):
    for x in v:
        if x=="a": return True
    return False
@s
def loop_items(v):
    for k,x in v.items():
        if x is None: raise KeyError(k)
    return len(v)
@s
def copy_set(v):
    d=dict(v); d["z"]=1
    return d
@s
def copy_set_orig(v):
    d=dict(v); d["z"]=1
    return v
@s
def setit(v):
    v["a"]=5
    return v
@s
def setit2(v):
    v["q"]=5
    return len(v),"a" in v,v.get("a")
@s
def delit(v):
    del v["a"]
    return "a" in v
@s
def popit(v):
    x=v.pop("a",7)
    return x,"a" in v,len(v)
@s
def listcomp(v): return [x for x in v]
@s
def listcomp_f(v): return [x for x in v if isinstance(x,int)]
@s
def len_comp(v): return len([x for x in v if isinstance(x,int)])
@s
def slice1(v): return v[1:]
@s
def slice2(v): return v[:2]
@s
def unpack2(v):
    a,b=v
    return b,a
@s
def unpack_star(v):
    a,*b=v
    return a
@s
def listadd(v): return [0]+v
@s
def listadd2(v): return [0,*v]
@s
def idx1(v): return v[1]
@s
def nested(v): return v["a"]["b"]
@s
def try_key(v):
    try: return v["a"]
    except KeyError: return "no"
@s
def try_all(v):
    try: return v["a"]
    except Exception as e: return type(e).__name__
@s
def typename_(v): return type(v).__name__
@s
def type_is(v): return type(v) is dict
@s
def ternary(v): return "l" if isinstance(v,list) else "d" if isinstance(v,dict) else "o"
@s
def notv(v): return not v
@s
def andv(v): return v and 3
@s
def none_(v): return v is None
@s
def eq_list(v): return v==[1,2]
@s
def eq_dict(v): return v=={"a":1}
@s
def eq_empty(v): return v=={}
@s
def ne_empty(v): return v!=[]
@s
def in_tuple(v): return v in ("a",1,None)
@s
def in_set(v): return v in {"a",1}
@s
def in_list(v): return v in [[1],{}]
@s
def as_key(v): return {v:1}
@s
def as_key2(v):
    d={"a":1,1:2}
    return d.get(v)
@s
def as_key3(v):
    d={}
    d[v]=1
    return True in d
@s
def strcat(v): return v+"x"
@s
def fmt(v): return len(f"{v}")>=0
@s
def join(v): return len(",".join(v))>=0
@s
def int_(v): return int(v)
@s
def str_(v): return isinstance(str(v),str)
@s
def list_(v): return len(list(v))
@s
def bool_eq(v): return v==True
@s
def startswith(v): return v.startswith("")
@s
def enc(v): return isinstance(v.encode(),bytes)
@s
def match_(v):
    match v:
        case [a,b]: return 1
        case [a,*r]: return 2
        case {"a":x}: return 3
        case str(): return 4
        case None: return 5
        case bool(): return 6
        case int(): return 7
        case _: return 8
@s
def count_while(v):
    i=0
    while i<len(v): i+=1
    return i
@s
def enum_(v):
    for i,x in enumerate(v):
        if i==1: return x
    return None
@s
def sorted_keys(v): return "a" in sorted(v)
@s
def dict_merge(v): return {**v,"a":9}
@s
def dict_merge2(v): return {"a":9,**v}
@s
def upd(v):
    d={"a":0,"n":1}
    d.update(v)
    return d["a"],d["n"]
@s
def aliased(v):
    d=v
    d["k"]=1
    return v["k"]
@s
def nested_mut(v):
    v["a"]["z"]=1
    return v["a"]
@s
def setdef(v): return v.setdefault("a",4),v.get("a")
@s
def listappend(v):
    r=list(v); r.append(1)
    return len(r),len(v)
@s
def append_orig(v):
    v.append(1)
    return len(v)
@s
def next_(v): return next((x for x in v if isinstance(x,str)),None) is not None
@s
def sumv(v): return sum(1 for x in v)
@s
def mod(v): return v%2
@s
def bitand(v): return v&1
@s
def maxv(v): return max(v,0)
@s
def cmp2(v): return v>True
@s
def dictcomp(v): return len({k:1 for k in v})
@s
def dictcomp2(v): return {k:x for k,x in v.items() if x is not None}
@s
def setcomp(v): return len({x for x in v})
@s
def isin_vals(v): return 1 in v.values()
@s
def keys_eq(v): return list(v.keys())==["a"]
@s
def callv(v): return v()
@s
def attr(v): return v.foo
@s
def hasattr_(v): return hasattr(v,"keys")
@s
def iter_twice(v):
    n=0
    for x in v: n=n+1
    return n
@s
def accum(v):
    out=[]
    for x in v: out.append(x)
    return len(out)
@s
def accum_if(v):
    out=[]
    for x in v:
        if isinstance(x,str): out.append(x)
    return len(out)
@s
def nestedloop(v):
    for x in v:
        for y in x:
            if y is None: return 1
    return 0
@s
def rev(v): return v[::-1]
@s
def zip_(v): return [a for a,b in zip(v,v)]
@s
def ord_(v): return len(v)>1 and v[0]==v[1]
@s
def float_ok(v): return isinstance(v,(int,float))
@s
def strip(v): return isinstance(v.strip(),str)
@s
def hash_(v): return hash(v)==hash(v)
@s
def idx_neg(v): return v[-2]
@s
def in_range(v): return v in range(0,5)
@s
def chain(v): return v is not None and v is not True and not isinstance(v,(list,dict))
@s
def mul2(v): return v*2
@s
def mul2r(v): return 2*v
@s
def fmtp(v): return isinstance("%s" % v, str)
@s
def fmtd(v): return isinstance("%d" % v, str)
@s
def modl(v): return isinstance(v % 3, (str,int,float))
@s
def bor(v): return v|{"q":1}
@s
def addself(v): return v+v
@s
def addb(v): return v+b"x"
@s
def sub(v): return v-1
@s
def div(v): return v/1
@s
def fdiv(v): return v//2
@s
def pow_(v): return v**2
@s
def lshift(v): return v<<1
@s
def inv(v): return ~v
@s
def lt_s(v): return v<"b"
@s
def le_l(v): return v<=[1]
@s
def lt_self(v): return v<v
@s
def eq_self(v): return v==v
@s
def is_self(v): return v is v
@s
def ge0(v): return not v<0
@s
def is_eq_str(v): return v=="a"
@s
def ne_str(v): return v!="a"
@s
def eq_b(v): return v==b"x"
@s
def int_str(v):
    try: return int(v)>=0
    except (ValueError,TypeError) as e: return type(e).__name__
@s
def enc_u(v): return v.encode("utf-8")==b"a"
@s
def dec(v): return isinstance(v.decode(),str)
@s
def hexs(v): return isinstance(bytes.fromhex(v),bytes)
@s
def byts(v): return isinstance(bytes(v),bytes)
@s
def tup(v): return isinstance(tuple(v),tuple)
@s
def dic(v): return isinstance(dict(v),dict)
@s
def set__(v): return len(set(v))
@s
def frozen(v): return "a" in frozenset(v)
@s
def anyv(v): return any(v)
@s
def allv(v): return all(v)
@s
def minv(v): return min(v,3)
@s
def absv(v): return abs(v)
@s
def roundv(v): return round(v)
@s
def floatv(v): return isinstance(float(v),float)
@s
def issub(v): return issubclass(v,int)
@s
def isinst_v(v): return isinstance(1,v)
@s
def star_args(v):
    def f(*a): return len(a)
    return f(*v)
@s
def star_kw(v):
    def f(**a): return len(a)
    return f(**v)
@s
def call_kw(v):
    def f(a=0,b=0): return a
    return f(**v)
@s
def get_items(v): return [k for k,x in v.items()]
@s
def items_loop(v):
    n=[]
    for k,x in v.items():
        if isinstance(x,int): n.append(k)
    return len(n)>0
@s
def del_idx(v):
    del v[0]
    return len(v)
@s
def pop_idx(v): return v.pop()
@s
def pop0(v): return v.pop(0)
@s
def lst_index(v): return v.index("a")
@s
def count(v): return v.count("a")
@s
def lower(v): return v.lower()=="a"
@s
def split(v): return len(v.split("a"))>=1
@s
def isdigit(v): return v.isdigit() in (True,False)
@s
def clear(v):
    v.clear(); return len(v)
@s
def in_dict_get(v): return {"a":1}.get(v,0)
@s
def dict_idx(v): return {"a":1,1:3}[v]
@s
def list_idx(v): return ["p","q"][v]
@s
def list_slice(v): return ["p","q"][:v]
@s
def nested_get(v): return v.get("a",{}).get("b")
@s
def walrus(v):
    if (n:=v.get("a")) is not None: return n
    return 0
@s
def chained(v): return 0<v<3
@s
def raise_v(v): raise v
@s
def assert_v(v):
    assert isinstance(v,dict)
    return 1
@s
def setattr_v(v):
    v.x=1
    return v.x
@s
def with_v(v):
    with v: return 1
@s
def lam(v): return (lambda x=v: x)()
@s
def ret_tuple(v): return (v,v)
@s
def try_fin(v):
    try: return v["a"]
    except (KeyError,TypeError): return "t"
    except IndexError: return "i"
@s
def isin_keys(v): return "a" in v.keys()
@s
def items_in(v): return ("a",1) in v.items()
@s
def eq_cross(v): return v==0 or v==""
@s
def loop_str(v):
    out=0
    for x in v:
        if not isinstance(x,(int,str)): return -1
    return out
@s
def first_of(v):
    for x in v: return x
    return "none"
@s
def loop_break_else(v):
    for x in v:
        if x==1: break
    else: return "no"
    return "yes"
@s
def loop_idx(v):
    for i in range(len(v)):
        if v[i]==1: return i
    return -1
@s
def exc_loop(v):
    for x in v:
        try: x["a"]
        except Exception: return "bad"
    return "ok"
@s
def dict_of_list(v): return dict(v)=={}
@s
def overwrite(v):
    v=dict(v); v.pop("a",None)
    return "a" in v
@s
def ov2(v):
    v["a"]=1; v["a"]=2; del v["a"]
    return v.get("a"),"a" in v
@s
def ov3(v):
    v["z"]=v.get("a"); return v["z"],v.get("a")
@s
def ov4(v):
    w=v.copy(); w["a"]=7
    return v.get("a"),w["a"]
@s
def ov5(v):
    w=v.copy(); v["a"]=7
    return v.get("a"),w.get("a")
@s
def ov6(v):
    w=v.setdefault("l",[]); w.append(1)
    return v["l"]
@s
def swap(v):
    a,b=v[0],v[1]
    return [b,a]
@s
def tern_none(v): return v if v is not None else {}
@s
def comp_nested(v): return all(isinstance(y,int) for x in v for y in x)
@s
def comp_cond(v): return all(isinstance(v[k],int) for k in v)
@s
def str_idx_loop(v): return len(v[0])
@s
def isinst_tuple(v): return isinstance(v,(list,tuple))
@s
def is_none_in(v): return None in v
@s
def list_eq(v): return list(v)==v
@s
def typ_in(v): return type(v) in (int,str)
@s
def typ_eq(v): return type(v)==dict
@s
def dict_in_list(v): return {} in v
