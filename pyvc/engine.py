"""Symbolic execution of the real Python functions (AST of /repo's current source) with loop summaries.

Values: host constants, z3 terms of sort V/Real/Bool, Tup, SliceV, Ref (heap cell + path), function values.
State: heap (immutable records), local environments, path condition. Loops over symbolic collections are
summarised: their effect on every written location is computed as a transition and verified by z3."""
import ast,math,itertools,time
import z3
from terms import *
from source import *

class PyRaise(Exception):
    def __init__(s,name): s.name=name
    def __str__(s): return s.name
class ReturnX(Exception):
    def __init__(s,v): s.v=v
class BreakX(Exception): pass
class ContinueX(Exception): pass
class Dead(Exception): pass

class Part(object):
    """elements {val(vars) | cond(vars)} of a collection, one for every assignment of vars"""
    __slots__=("vars","cond","val")
    def __init__(s,vars,cond,val): s.vars,s.cond,s.val=tuple(vars),cond,val
    def concrete(s): return not s.vars and z3.is_true(s.cond)
    def inst(s,vs=None):
        vs=[z3.FreshConst(v.sort(),"e") for v in s.vars] if vs is None else vs
        m=list(zip(s.vars,vs)); return vs,zsub(s.cond,m),vsubst(s.val,m)
class Seq(object):
    """iterator / generator / list contents: tuple of parts"""
    __slots__=("parts",)
    def __init__(s,parts): s.parts=tuple(parts)
    def concrete(s): return all(p.concrete() for p in s.parts)
    def items(s): return [p.val for p in s.parts]
def seq(items): return Seq([Part((),TRUE,x) for x in items])
TRUE=z3.BoolVal(True); FALSE=z3.BoolVal(False)
class SetRec(object):
    __slots__=("shape","mem")
    def __init__(s,mem,shape=1): s.mem,s.shape=mem,shape
class DictRec(object):
    __slots__=("shape","dom","val","empty")
    def __init__(s,dom,val,shape=1,empty=None): s.dom,s.val,s.shape,s.empty=dom,val,shape,empty
class FunRec(object):
    """total function (edge weights of an abstract network): fn(list of n comps)->V; dims: an array with these numbers of rows, columns"""
    __slots__=("n","fn","dims")
    def __init__(s,fn,n,dims=None): s.fn,s.n,s.dims=fn,n,dims
class ListRec(object):
    """rank(vars): position of the element with these variables, for a list with one symbolic part"""
    __slots__=("parts","hav","rank")
    def __init__(s,parts=(),hav=False,rank=None): s.parts,s.hav,s.rank=tuple(parts),hav,rank
class ObjRec(object):
    __slots__=("cls","fields")
    def __init__(s,cls,fields): s.cls,s.fields=cls,fields
    def put(s,k,v): f=dict(s.fields); f[k]=v; return ObjRec(s.cls,f)
RECS=(SetRec,DictRec,FunRec,ListRec,ObjRec)
class FnVal(object):      # bound or plain function of the repository
    def __init__(s,info,self=None,cls=None): s.info,s.self,s.cls=info,self,cls
class LamVal(object):     # lambda or nested def
    def __init__(s,node,fid,module,frame): s.node,s.fid,s.module,s.frame=node,fid,module,frame
class Builtin(object):
    def __init__(s,name,self=None): s.name,s.self=name,self
    def __repr__(s): return "<builtin %s>"%s.name
class TypeVal(object):
    def __init__(s,name): s.name=name
    def __repr__(s): return "<type %s>"%s.name
class ExtVal(object):
    def __init__(s,name): s.name=name
    def __repr__(s): return "<ext %s>"%s.name
class HostDict(object):
    """keyword arguments: a dictionary with known string keys that is only read"""
    def __init__(s,d): s.d=dict(d)
class Opaque(object):
    """a value nobody looks at (messages)"""
EXCS={"Exception","KeyError","ValueError","AssertionError","NotImplementedError","TypeError","IndexError","NameError","AttributeError","NotImplemented","ZeroDivisionError","StopIteration","RuntimeError"}

def zsub(t,m): return z3.substitute(t,*m) if m else t
def vsubst(v,m):
    if not m: return v
    if isz(v): return z3.substitute(v,*m)
    if isinstance(v,Tup): return Tup([vsubst(x,m) for x in v.items])
    if isinstance(v,Ref): return Ref(v.oid,tuple((k,(tuple(zsub(c,m) for c in p) if k=="k" else p)) for k,p in v.path))
    if isinstance(v,Seq):
        return Seq([Part(p.vars,zsub(p.cond,m),vsubst(p.val,m)) for p in v.parts])
    if isinstance(v,FnVal) and v.self is not None: return FnVal(v.info,vsubst(v.self,m),v.cls)
    return v
def vfuns(v,m):
    if isz(v): return subst_funs(v,m)
    if isinstance(v,Tup): return Tup([vfuns(x,m) for x in v.items])
    if isinstance(v,Ref): return Ref(v.oid,tuple((k,(tuple(subst_funs(c,m) for c in p) if k=="k" else p)) for k,p in v.path))
    if isinstance(v,Seq): return Seq([Part(p.vars,subst_funs(p.cond,m),vfuns(p.val,m)) for p in v.parts])
    return v
def isT(v): return OR(*TI_of(v))
def TI_of(v): return [TI[n](v) for n in range(MAXT+1)]
class Shape1(int):
    """shape of containers whose keys are 1-tuples (plain values have shape 1)"""
    def __eq__(s,o): return isinstance(o,Shape1)
    def __ne__(s,o): return not isinstance(o,Shape1)
    def __hash__(s): return 101
SH1=Shape1(1)
def tsh(n): return SH1 if int(n)==1 else int(n)
def comps(v,n):
    """(condition, components) of a key for a container with keys of the given shape"""
    if n==1: return TRUE,[toV(v)]
    n=int(n)
    if isinstance(v,Tup):
        if len(v.items)==n: return TRUE,[toV(i) for i in v.items]
        return FALSE,[NONE]*n
    t=toV(v)
    if is_tctor(t):
        if t.num_args()==n: return TRUE,t.children()
        return FALSE,[NONE]*n
    return TI[n](t),[TA[n][i](t) for i in range(n)]
def fromcomps(c,sh): return c[0] if sh==1 else Tup(c)
def eqc(a,b): return AND(*[EQ(x,y) for x,y in zip(a,b)])
def isnum(x): return isnumlit(x) or isR(x)

def merge(c,a,b):
    """value c ? a : b"""
    if a is b: return a
    if type(c) is bool: return a if c else b
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if isinstance(a,SetRec) and isinstance(b,SetRec):
        if a.shape!=b.shape:
            a,b=shape1(a),shape1(b)
        return SetRec(lambda k:ITE(c,a.mem(k),b.mem(k)),a.shape)
    if isinstance(a,DictRec) and isinstance(b,DictRec):
        if a.shape!=b.shape:
            if a.empty: a=DictRec(lambda k:FALSE,a.val,b.shape,True)
            elif b.empty: b=DictRec(lambda k:FALSE,b.val,a.shape,True)
            else: a,b=shape1(a),shape1(b)
        if a.empty: va=b.val
        elif b.empty: va=a.val
        else: va=lambda k:merge(c,a.val(k),b.val(k))
        return DictRec(lambda k:ITE(c,a.dom(k),b.dom(k)),va,a.shape,a.empty and b.empty)
    if isinstance(a,FunRec) and isinstance(b,FunRec): return FunRec(lambda k:ITE(c,a.fn(k),b.fn(k)),a.n,a.dims)
    if isinstance(a,ListRec) and isinstance(b,ListRec):
        if len(a.parts)==len(b.parts) and all(x is y or (x.concrete() and y.concrete()) for x,y in zip(a.parts,b.parts)):
            return ListRec([x if x is y else Part((),TRUE,merge(c,x.val,y.val)) for x,y in zip(a.parts,b.parts)],a.hav)
        return ListRec([Part(p.vars,AND(c,p.cond),p.val) for p in a.parts]+[Part(p.vars,AND(NOT(c),p.cond),p.val) for p in b.parts],a.hav or b.hav)
    if isinstance(a,ObjRec) and isinstance(b,ObjRec) and a.cls is b.cls:
        ks=set(a.fields)&set(b.fields)
        return ObjRec(a.cls,{k:merge(c,a.fields[k],b.fields[k]) for k in ks})
    if isinstance(a,Tup) and isinstance(b,Tup) and len(a.items)==len(b.items): return Tup([merge(c,x,y) for x,y in zip(a.items,b.items)])
    if isinstance(a,Ref) and isinstance(b,Ref) and a.oid==b.oid and len(a.path)==len(b.path) and all(x[0]==y[0] for x,y in zip(a.path,b.path)):
        if all(x[0]=="k" or x[1]==y[1] for x,y in zip(a.path,b.path)):
            return Ref(a.oid,tuple(x if x[0]!="k" else ("k",tuple(ITE(c,p,q) for p,q in zip(x[1],y[1]))) for x,y in zip(a.path,b.path)))
    if type(a)==type(b) and not isz(a) and isinstance(a,(bool,int,float,str,type(None))) and a==b: return a
    if (isB(a) or type(a) is bool) and (isB(b) or type(b) is bool): return ITE(c,tobool(a),tobool(b))
    if isnum(a) and isnum(b): return ITE(c,real(a),real(b))
    if isinstance(a,RECS+(Ref,)) or isinstance(b,RECS+(Ref,)): raise Unsupported("joining different objects")
    return ITE(c,toV(a),toV(b))
def tobool(a): return z3.BoolVal(a) if type(a) is bool else a
def shape1(s):
    if s.shape==1: return s
    n=int(s.shape)
    if isinstance(s,DictRec):
        return DictRec(lambda k:AND(TI[n](k[0]),s.dom([TA[n][i](k[0]) for i in range(n)])),lambda k:s.val([TA[n][i](k[0]) for i in range(n)]),1,s.empty)
    return SetRec(lambda k:AND(TI[n](k[0]),s.mem([TA[n][i](k[0]) for i in range(n)])),1)

class State(object):
    def __init__(s): s.heap={}; s.env={}; s.pc=[]
    def copy(s):
        n=State(); n.heap=dict(s.heap); n.env={f:dict(e) for f,e in s.env.items()}; n.pc=list(s.pc); return n
class Frame(object):
    def __init__(s,fid,info,parent=None,module=None): s.fid,s.info,s.parent=fid,info,parent; s.module=module or info.module
class Out(object):
    def __init__(s,kind,val,st,new): s.kind,s.val,s.st,s.new=kind,val,st,new   # new: pc entries added
    def conds(s): return [t for k,t in s.new if k=="b"]
    def allc(s): return [t for k,t in s.new]
class Stats(object):
    def __init__(s): s.q=0; s.t=0.0
STATS=Stats()
def sat(cs,timeout=3000):
    """True / False / None"""
    cs=[c for c in cs if not z3.is_true(c)]
    if any(z3.is_false(c) for c in cs): return False
    for mode in (0,1):
        s=z3.Solver(); s.set("timeout",min(timeout,1000))
        if not mode: s.set("mbqi",False); s.set("auto_config",False)
        s.add(*cs); t=time.time(); r=s.check(); STATS.q+=1; STATS.t+=time.time()-t
        if r==z3.unsat: return False
        if r==z3.sat: return True
        if not any(z3.is_quantifier(c) for c in cs): break
        timeout=400
    return None

class Interp(object):
    MAXPATHS=400
    def __init__(self,repo,contracts=None,deadline=None):
        self.repo=repo; self.st=State(); self.contracts=contracts or {}; self.count=itertools.count(); self.scope=[]
        self.dec=[]; self.pos=0; self.alts=[]; self.under=None; self.side=[]; self.inlined=set(); self.used=set(); self.approx=[]; self.deadline=deadline; self.depth=0
    # ------------------------------------------------------------ basics
    def name(self,p): return "%s!%d"%(p,next(self.count))
    def fresh(self,p="x",sort=None,more=()):
        """new constant (a function of the loop variables in scope)"""
        sort=V if sort is None else sort; a=list(self.scope)+list(more)
        return z3.Function(self.name(p),*([x.sort() for x in a]+[sort]))(*a) if a else z3.Const(self.name(p),sort)
    def freshfun(self,p,nargs,sort):
        sc=list(self.scope); f=z3.Function(self.name(p),*([x.sort() for x in sc]+[V]*nargs+[sort])) if sc or nargs else z3.Const(self.name(p),sort).decl()
        return (lambda k:f(*(sc+list(k)))),f.name(),len(sc)
    def fact(self,t):
        if not z3.is_true(t): self.st.pc.append(("f",t))
    def assume(self,t):
        t=tobool(t)
        if z3.is_true(t): return
        if z3.is_false(t): raise Dead()
        self.st.pc.append(("b",t))
    def pcs(self): return [t for _,t in self.st.pc]
    def must(self,t):
        """is t certainly true here?"""
        t=z3.simplify(tobool(t))
        if z3.is_true(t): return True
        if z3.is_false(t): return sat(self.pcs())==False
        return sat(self.pcs()+[NOT(t)])==False
    def alloc(self,rec):
        oid=next(self.count); self.st.heap[oid]=rec; return Ref(oid)
    # ------------------------------------------------------------ paths
    def branch(self,c):
        if type(c) is bool: return c
        c=z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if self.pos<len(self.dec):
            d=self.dec[self.pos]
        else:
            if self.deadline and time.time()>self.deadline: raise Unsupported("out of time")
            p=self.pcs()
            if sat(p+[c],1500)==False: d="F"
            elif sat(p+[NOT(c)],1500)==False: d="T"
            else: d=True; self.alts.append(self.dec[:self.pos]+[False])
            self.dec.append(d)
        self.pos+=1
        if d=="T": self.fact(c); return True     # implied
        if d=="F": self.fact(NOT(c)); return False
        self.assume(c if d else NOT(c))
        return d
    def explore(self,thunk):
        """all paths of thunk from the current state"""
        base=self.st.copy(); save=(self.dec,self.pos,self.alts); n0=len(base.pc); outs=[]; stack=[[]]
        try:
            while stack:
                dec=stack.pop(); self.dec,self.pos,self.alts=list(dec),0,[]; self.st=base.copy()
                try:
                    try: o=("ok",thunk())
                    except PyRaise as e: o=("raise",e.name)
                    except ReturnX as e: o=("return",e.v)
                    except BreakX: o=("break",None)
                    except ContinueX: o=("continue",None)
                    outs.append(Out(o[0],o[1],self.st,self.st.pc[n0:]))
                except Dead: pass
                stack.extend(self.alts)
                if len(outs)>self.MAXPATHS: raise Unsupported("too many paths")
        finally:
            self.st=base; self.dec,self.pos,self.alts=save
        return outs
    def merged(self,thunk,what):
        """evaluate an effect-free expression on all its paths and join the results"""
        base=self.st; outs=self.explore(thunk)
        if not outs: raise Dead()
        for o in outs:
            if o.kind=="raise":
                # take the raising path as a real fork
                if self.branch(AND(*o.conds())): raise PyRaise(o.val)
                continue
            if o.kind!="ok": raise Unsupported(what)
            if self.changed(base,o.st): raise Unsupported(what+" with effects")
        outs=[o for o in outs if o.kind=="ok"]
        if not outs: raise Dead()
        for o in outs:
            for t in self.hoist(o,(),TRUE): self.fact(t)
        r=outs[-1].val
        for o in reversed(outs[:-1]): r=merge(AND(*o.conds()),o.val,r)
        return r
    def changed(self,a,b):
        for k in a.heap:
            if b.heap.get(k) is not a.heap[k]: return True
        for f in a.env:
            x,y=a.env[f],b.env.get(f,{})
            for n in set(x)|set(y):
                if x.get(n,UNDEF) is not y.get(n,UNDEF): return True
        return False
    def hoist(self,o,vs,cond):
        """facts of a path, valid for all loop variables"""
        out=[]; g=[cond]
        for k,t in o.new:
            if k=="b": g.append(t)
            else:
                q=FORALL(vs,IMP(AND(*g),t)); out.append(q)
        return out
    # ------------------------------------------------------------ heap
    def rec(self,ref):
        if not isinstance(ref,Ref): raise Unsupported("object expected, got %r"%(ref,))
        r=self.st.heap.get(ref.oid)
        if r is None: raise Unsupported("object created inside of a summarised loop")
        if isinstance(r,MovedRec): return self.rec(Ref(r.ref.oid,r.ref.path+ref.path))
        for k,p in ref.path: r=self.step(r,k,p)
        return r
    def step(self,r,k,p):
        if k=="k":
            x=r.val(list(p))
        elif k=="f": x=r.fields[p]
        else: x=r.parts[p].val
        if isinstance(x,Ref): return self.rec(x)
        return x
    def norm(self,ref):
        r=self.st.heap.get(ref.oid)
        while isinstance(r,MovedRec):
            ref=Ref(r.ref.oid,r.ref.path+ref.path); r=self.st.heap.get(ref.oid)
        # a Ref stored inside of a family
        for i,(k,p) in enumerate(ref.path):
            if k=="k": x=r.val(list(p))
            elif k=="f": x=r.fields[p]
            else: x=r.parts[p].val
            if isinstance(x,Ref): return self.norm(Ref(x.oid,x.path+ref.path[i+1:]))
            r=x
        return ref
    def put(self,ref,rec):
        ref=self.norm(ref)
        self.st.heap[ref.oid]=self.putin(self.st.heap.get(ref.oid),list(ref.path),rec)
    def putin(self,r,path,new):
        if not path: return new
        (k,p),rest=path[0],path[1:]
        if k=="k":
            p=list(p); inner=self.putin(r.val(p),rest,new); old=r.val
            return DictRec(r.dom,lambda x:merge(eqc(x,p),inner,old(x)),r.shape)
        if k=="f": return r.put(p,self.putin(r.fields[p],rest,new))
        parts=list(r.parts); parts[p]=Part((),TRUE,self.putin(parts[p].val,rest,new)); return ListRec(parts)
    def cls_of(self,v):
        r=self.rec(v)
        return r.cls if isinstance(r,ObjRec) else None
    # ------------------------------------------------------------ truth, equality
    def truth(self,v):
        if type(v) is bool: return v
        if v is None: return False
        if isinstance(v,HostDict): return bool(v.d)
        if isnumlit(v): return v!=0
        if type(v) is str: return v!=""
        if isinstance(v,Tup): return len(v.items)>0
        if isB(v): return v
        if isR(v): return v!=0
        if isV(v): return AND(v!=NONE,v!=V.num(z3.RealVal(0)),v!=V.T0,v!=V.str(z3.IntVal(strid(""))))
        if isinstance(v,Ref):
            r=self.rec(v)
            if isinstance(r,ListRec):
                if r.hav: raise Unsupported("reading a list that grows in the loop")
                return OR(*[EXISTS(p.vars,[p.cond]) if p.vars else p.cond for p in r.parts])
            if isinstance(r,SetRec): k=[self.bound() for _ in range(r.shape)]; return EXISTS(k,[r.mem(k)])
            if isinstance(r,DictRec): k=[self.bound() for _ in range(r.shape)]; return EXISTS(k,[r.dom(k)])
            if isinstance(r,ObjRec):
                if r.cls.find("__len__"): return self.truth(self.callv(self.getattr(v,"__len__"),[]))
                return True
        if isinstance(v,(FnVal,LamVal,Builtin,TypeVal,ClassInfo,ExtVal)): return True
        raise Unsupported("truth value of %r"%(v,))
    def bound(self): return z3.FreshConst(V,"b")
    def eq(self,a,b):
        if a is b and not isinstance(a,Opaque): return True
        ha=isinstance(a,(int,float,str,bool,type(None))) ; hb=isinstance(b,(int,float,str,bool,type(None)))
        if ha and hb: return a==b
        if isinstance(a,Ref) and isinstance(b,Ref):
            ra,rb=self.rec(a),self.rec(b)
            if isinstance(ra,SetRec) and isinstance(rb,SetRec):
                if ra.shape!=rb.shape: ra,rb=shape1(ra),shape1(rb)
                k=[self.bound() for _ in range(ra.shape)]; return FORALL(k,ra.mem(k)==rb.mem(k))
            if isinstance(ra,ListRec) and isinstance(rb,ListRec):
                x,y=Seq(ra.parts),Seq(rb.parts)
                if x.concrete() and y.concrete(): return len(ra.parts)==len(rb.parts) and AND(*[tobool(self.eq(p,q)) for p,q in zip(x.items(),y.items())])
                raise Unsupported("comparing symbolic lists")
            if isinstance(ra,DictRec) and isinstance(rb,DictRec) and ra.shape==rb.shape:
                k=[self.bound() for _ in range(ra.shape)]; va,vb=ra.val(k),rb.val(k)
                if isinstance(va,SetRec) and isinstance(vb,SetRec):
                    if va.shape!=vb.shape: va,vb=shape1(va),shape1(vb)
                    j=[self.bound() for _ in range(va.shape)]; e=FORALL(j,va.mem(j)==vb.mem(j))
                elif isinstance(va,RECS): raise Unsupported("comparing nested dictionaries")
                else: e=tobool(self.eq(va,vb))
                return AND(FORALL(k,ra.dom(k)==rb.dom(k)),FORALL(k,IMP(ra.dom(k),e)))
            if isinstance(ra,ObjRec) and ra.cls.find("__eq__"): return self.truth(self.callv(self.getattr(a,"__eq__"),[b]))
            if isinstance(ra,ObjRec) or isinstance(rb,ObjRec):
                x,y=self.norm(a),self.norm(b)
                if x.oid!=y.oid: return False
                if x.path==y.path: return True
                raise Unsupported("identity of objects")
            return False
        if isinstance(a,Ref) or isinstance(b,Ref):
            r,o=(a,b) if isinstance(a,Ref) else (b,a)
            rr=self.rec(r)
            if isinstance(rr,ObjRec) and rr.cls.find("__eq__") and r is a: return self.truth(self.callv(self.getattr(a,"__eq__"),[b]))
            return False   # containers are never equal to names, numbers or tuples
        if isinstance(a,(TypeVal,ClassInfo)) or isinstance(b,(TypeVal,ClassInfo)):
            if isinstance(a,TypeVal) and isinstance(b,TypeVal): return a.name==b.name
            return a is b
        if isinstance(a,(FnVal,LamVal,Builtin,ExtVal)) or isinstance(b,(FnVal,LamVal,Builtin,ExtVal)):
            if a is None or b is None: return False
            raise Unsupported("comparing functions")
        if isB(a) or type(a) is bool:
            if isB(b) or type(b) is bool: return tobool(a)==tobool(b)
        if isnum(a) and isnum(b): return real(a)==real(b)
        if (isinstance(a,(Tup,HostDict,Seq)) and hb) or (isinstance(b,(Tup,HostDict,Seq)) and ha): return False
        if isinstance(a,Tup) and isinstance(b,Tup):
            if len(a.items)!=len(b.items): return False
            return AND(*[tobool(self.eq(x,y)) for x,y in zip(a.items,b.items)])
        return EQ(toV(a),toV(b))
    def num(self,v):
        """number value; anything else raises TypeError"""
        if isnumlit(v) or isR(v): return v
        if type(v) is bool: return int(v)
        if isB(v): return real(v)
        if isV(v):
            if v.decl().eq(V.num): return v.arg(0)
            if not self.branch(V.is_num(v)): raise PyRaise("TypeError")
            return V.nv(v)
        raise Unsupported("number expected, got %r"%(v,))
    # ------------------------------------------------------------ collections as sequences
    def seqof(self,v):
        """elements of an iterable"""
        if isinstance(v,Seq): return v
        if isinstance(v,Tup): return seq(v.items)
        if isinstance(v,range): return seq(list(v))
        if isinstance(v,HostDict): return seq(list(v.d))
        if type(v) is str: return seq(list(v))
        if isinstance(v,Ref):
            r=self.rec(v)
            if isinstance(r,ListRec):
                if r.hav: raise Unsupported("reading a list that grows in the loop")
                return Seq(r.parts)
            if isinstance(r,SetRec):
                k=[self.bound() for _ in range(r.shape)]; return self.tidy(Seq([Part(k,r.mem(k),fromcomps(k,r.shape))]))
            if isinstance(r,DictRec):
                k=[self.bound() for _ in range(r.shape)]; return self.tidy(Seq([Part(k,r.dom(k),fromcomps(k,r.shape))]))
            if isinstance(r,ObjRec) and r.cls.find("__iter__"): return self.seqof(self.callv(self.getattr(v,"__iter__"),[]))
            if isinstance(r,ObjRec) and "$iter" in r.fields: return self.seqof(r.fields["$iter"])
        if isV(v):
            for n in range(MAXT+1):
                if self.must(TI[n](v)): return seq([TA[n][i](v) for i in range(n)])
        raise Unsupported("iterating over %r"%(v,))
    def tidy(self,s):
        """concrete finite sets ({a,b} built by literal adds) stay symbolic; empty ones vanish"""
        return Seq([p for p in s.parts if not z3.is_false(z3.simplify(p.cond))])
    def contains(self,c,x):
        if isinstance(c,HostDict):
            if type(x) is not str: raise Unsupported("key")
            return x in c.d
        if isinstance(c,Ref):
            r=self.rec(c)
            if isinstance(r,SetRec): ok,k=comps(x,r.shape); return AND(ok,r.mem(k))
            if isinstance(r,DictRec): ok,k=comps(x,r.shape); return AND(ok,r.dom(k))
            if isinstance(r,ObjRec) and r.cls.find("__contains__"): return self.truth(self.callv(self.getattr(c,"__contains__"),[x]))
            if isinstance(r,ObjRec) and not r.cls.find("__iter__") and not "$iter" in r.fields: raise Unsupported("in on %s"%r.cls.name)
        s=self.seqof(c); out=[]
        for p in s.parts:
            e=tobool(self.eq(p.val,x)); out.append(EXISTS(p.vars,[p.cond,e]))
        return OR(*out)
    def length(self,v):
        if isinstance(v,Tup): return len(v.items)
        if isinstance(v,range): return len(v)
        if type(v) is str: return len(v)
        if isinstance(v,Ref):
            r=self.rec(v)
            if isinstance(r,ObjRec): return self.callv(self.getattr(v,"__len__"),[])
            if isinstance(r,SetRec): k=[self.bound() for _ in range(r.shape)]; return SUM(k,r.mem(k),z3.RealVal(1))
            if isinstance(r,DictRec): k=[self.bound() for _ in range(r.shape)]; return SUM(k,r.dom(k),z3.RealVal(1))
        if isV(v):
            for n in range(MAXT+1):
                if self.must(TI[n](v)): return n
            raise Unsupported("length of a symbolic value")
        s=self.seqof(v)
        if s.concrete(): return len(s.parts)
        return self.total([(p,1) for p in s.parts])
    def total(self,pv):
        t=None
        for p,x in pv:
            y=SUM(p.vars,p.cond,real(x)); t=y if t is None else t+y
        return z3.RealVal(0) if t is None else t
    # ------------------------------------------------------------ subscripts
    def index(self,v,i):
        if isinstance(v,Tup):
            if isinstance(i,SliceV): return Tup(v.items[slice(self.hint(i.a),self.hint(i.b),self.hint(i.c))])
            j=self.hint(i)
            if j is None: raise Unsupported("symbolic index")
            try: return v.items[j]
            except IndexError: raise PyRaise("IndexError")
        if isinstance(v,HostDict):
            if type(i) is not str: raise Unsupported("key")
            if i not in v.d: raise PyRaise("KeyError")
            return v.d[i]
        if type(v) is str:
            j=self.hint(i)
            try: return v[j]
            except IndexError: raise PyRaise("IndexError")
        if isinstance(v,range) and not isinstance(i,SliceV): return v[self.hint(i)]
        if isinstance(v,Ref):
            r=self.rec(v)
            if isinstance(r,DictRec):
                ok,k=comps(i,r.shape)
                if not self.branch(AND(ok,r.dom(k))):
                    raise PyRaise("KeyError")
                return self.dictval(v,r,k)
            if isinstance(r,FunRec) and r.dims: return r.fn(self.arraykey(r,i))
            if isinstance(r,ListRec):
                s=Seq(r.parts)
                if r.hav or not s.concrete(): raise Unsupported("index into a symbolic list")
                if isinstance(i,SliceV): return self.alloc(ListRec(r.parts[slice(self.hint(i.a),self.hint(i.b),self.hint(i.c))]))
                j=self.hint(i)
                if j is None: raise Unsupported("symbolic index")
                try: x=r.parts[j].val
                except IndexError: raise PyRaise("IndexError")
                if isinstance(x,Poison): raise Unsupported("list element: %s"%x.why)
                if isinstance(x,RECS): return Ref(v.oid,v.path+(("i",j if j>=0 else len(r.parts)+j),))
                return x
            if isinstance(r,ObjRec): return self.callv(self.getattr(v,"__getitem__"),[i])
        if isV(v):
            for n in range(MAXT+1):
                if self.must(TI[n](v)): return self.index(Tup([TA[n][j](v) for j in range(n)]),i)
        raise Unsupported("subscript of %r"%(v,))
    def dictval(self,v,r,k):
        x=r.val(k)
        if isinstance(x,RECS): return Ref(v.oid,v.path+(("k",tuple(k)),))
        return x
    def hint(self,i):
        """host integer"""
        if i is None or type(i) is int: return i
        if type(i) is bool: return int(i)
        if type(i) is float and i==int(i): return int(i)
        if isz(i):
            t=z3.simplify(real(i))
            if z3.is_rational_value(t) and t.denominator_as_long()==1: return t.numerator_as_long()
        raise Unsupported("symbolic index")
    def store(self,v,i,x):
        if isinstance(v,Ref):
            r=self.rec(v)
            if isinstance(r,DictRec):
                self.dictput(v,r,i,x); return
            if isinstance(r,FunRec) and r.dims:
                k=self.arraykey(r,i); x=toV(x); old=r.fn; self.put(v,FunRec(lambda y:ITE(eqc(y,k),x,old(y)),r.n,r.dims)); return
            if isinstance(r,ListRec):
                if r.hav or not Seq(r.parts).concrete(): raise Unsupported("assignment into a symbolic list")
                j=self.hint(i); p=list(r.parts)
                try: p[j]=Part((),TRUE,x)
                except IndexError: raise PyRaise("IndexError")
                self.put(v,ListRec(p)); return
            if isinstance(r,ObjRec): self.callv(self.getattr(v,"__setitem__"),[i,x]); return
        raise Unsupported("assignment to a subscript of %r"%(v,))
    def arraykey(self,r,i):
        """index of an array, which has to be inside it"""
        ok,k=comps(i,r.n)
        for x,m in zip(k,r.dims):
            ok=AND(ok,V.is_num(x),V.nv(x)>=0,V.nv(x)<m,z3.IsInt(V.nv(x)))
        if not self.must(ok):
            if self.must(NOT(ok)): raise PyRaise("IndexError")
            raise Unsupported("index of an array that may be outside it")
        return k
    def dictput(self,v,r,i,x):
        if r.empty and isinstance(i,Tup) and r.shape==1 and len(i.items)>0: r=DictRec(r.dom,r.val,tsh(len(i.items)),True)
        ok,k=comps(i,r.shape)
        if not z3.is_true(ok) and not self.must(ok): raise Unsupported("key of another shape")
        moved=None
        if isinstance(x,Ref):
            h=self.st.heap.get(x.oid)
            if isinstance(h,MovedRec) or x.path:
                if z3.is_true(z3.simplify(tobool(FALSE))): pass
                raise Unsupported("storing an object that is already stored elsewhere")
            if isinstance(h,ObjRec) and not self.family_ok(h): x_store=x
            else: x_store=self.inline(h); moved=x
        else: x_store=x
        old=r.val
        if r.empty: val=lambda y:x_store
        else: val=lambda y:merge(eqc(y,k),x_store,old(y))
        self.put(v,DictRec(lambda y:OR(eqc(y,k),r.dom(y)),val,r.shape))
        if moved is not None: self.st.heap[moved.oid]=MovedRec(Ref(v.oid,v.path+(("k",tuple(k)),)))
    def nested(self,v): return bool(v.path)
    def family_ok(self,h): return "$family" in h.fields
    def inline(self,h):
        """record without references to movable cells"""
        if isinstance(h,ObjRec):
            f={}
            for a,b in h.fields.items():
                if isinstance(b,Ref) and not b.path and a!="parent" and not isinstance(self.st.heap.get(b.oid),(MovedRec,ObjRec,type(None))) and self.owned(b): f[a]=self.inline(self.st.heap[b.oid])
                else: f[a]=b
            return ObjRec(h.cls,f)
        if isinstance(h,ListRec): return ListRec([Part(p.vars,p.cond,self.inline(self.st.heap[p.val.oid]) if isinstance(p.val,Ref) and not p.val.path and self.owned(p.val) else p.val) for p in h.parts])
        return h
    def owned(self,ref):
        """is the cell referred to from one place of the heap only"""
        n=0
        def go(v):
            nonlocal n
            if isinstance(v,Ref): n+=v.oid==ref.oid
            elif isinstance(v,MovedRec): go(v.ref)
            elif isinstance(v,ObjRec):
                for x in v.fields.values(): go(x)
            elif isinstance(v,ListRec):
                for p in v.parts: go(p.val)
            elif isinstance(v,Tup):
                for x in v.items: go(x)
        for v in list(self.st.heap.values()): go(v)
        return n<=1
    def delete(self,v,i):
        r=self.rec(v)
        if isinstance(r,DictRec):
            ok,k=comps(i,r.shape)
            if not self.branch(AND(ok,r.dom(k))): raise PyRaise("KeyError")
            self.put(v,DictRec(lambda y:AND(NOT(eqc(y,k)),r.dom(y)),r.val,r.shape)); return
        if isinstance(r,ObjRec): self.callv(self.getattr(v,"__delitem__"),[i]); return
        raise Unsupported("del")
    # ------------------------------------------------------------ attributes
    def getattr(self,v,a):
        if isinstance(v,Ref):
            r=self.rec(v)
            if isinstance(r,ObjRec):
                if a in r.fields:
                    x=r.fields[a]
                    if isinstance(x,RECS): return Ref(v.oid,v.path+(("f",a),))
                    if isinstance(x,Poison): raise Unsupported("reading %s: %s"%(a,x.why))
                    return x
                if a=="__class__": return r.cls
                hook=self.hooks.get((r.cls.name,a)) if hasattr(self,"hooks") else None
                if hook: return hook(self,v)
                p=r.cls.findprop(a)
                if p:
                    f=p[0]
                    if isinstance(f,ast.Name):
                        t=self.glob(p[1].module,f.id); return self.callv(t,[v])
                    raise Unsupported("property %s"%a)
                m=r.cls.find(a)
                if m:
                    if any(isinstance(d,ast.Name) and d.id=="property" for d in m.node.decorator_list): return self.call(m,[v],{},v)
                    return FnVal(m,v,r.cls)
                t=r.cls.findattr(a)
                if t: return self.eval(t[0],self.frame_for(t[1].module))
                raise PyRaise("AttributeError") if not self.viewlike(r) else Unsupported("field %s of an abstract %s"%(a,r.cls.name))
            return Builtin({SetRec:"set.",DictRec:"dict.",ListRec:"list."}[type(r)]+a,v)
        if isinstance(v,Tup): 
            if a=="__class__": return TypeVal("tuple")
            return Builtin("tuple."+a,v)
        if type(v) is str:
            if a=="__class__": return TypeVal("str")
            return Builtin("str."+a,v)
        if isinstance(v,ClassInfo):
            m=v.find(a)
            if m: return FnVal(m,None,v)
            t=v.findattr(a)
            if t: return self.eval(t[0],self.frame_for(t[1].module))
        if isinstance(v,Module): return self.modattr(v,a)
        if isinstance(v,ExtVal): return ExtVal(v.name+"."+a)
        if a=="__class__":
            if isV(v): return ("classof",v)
            if isB(v) or type(v) is bool: return TypeVal("bool")
            if isnumlit(v): return TypeVal(type(v).__name__)
            if isR(v): return TypeVal("float")
            if v is None: return TypeVal("NoneType")
            if isinstance(v,SliceV): return TypeVal("slice")
        if isinstance(v,TypeVal): return Builtin(v.name+"."+a)
        if isinstance(v,HostDict): return Builtin("hostdict."+a,v)
        raise Unsupported("attribute %s of %r"%(a,v))
    def viewlike(self,r): return any(k.startswith("$") for k in r.fields)
    def setattr(self,v,a,x):
        r=self.rec(v)
        if not isinstance(r,ObjRec): raise Unsupported("attribute assignment")
        self.put(v,r.put(a,x))
    def modattr(self,m,a):
        x=self.repo.member(m,a)
        return self.wrap(x)
    def wrap(self,x):
        if isinstance(x,FuncInfo): return FnVal(x)
        if isinstance(x,(ClassInfo,Module)): return x
        if isinstance(x,tuple) and x[0]=="const": return self.eval(x[1].consts[x[2]],self.frame_for(x[1]))
        if isinstance(x,tuple) and x[0]=="ext": return ExtVal(x[1])
        raise Unsupported("name %r"%(x,))
    def frame_for(self,module): return Frame(None,None,None,module)
    def glob(self,module,name):
        if name in module.funcs: return FnVal(module.funcs[name])
        if name in module.classes: return module.classes[name]
        if name in module.imports: return self.wrap(self.repo.resolve(module,name))
        if name in module.consts:
            return self.eval(module.consts[name],self.frame_for(module))
        if name in BUILTINS: return Builtin(name)
        if name in ("tuple","list","set","dict","int","float","str","bool","object","frozenset","type","slice"): return TypeVal(name)
        if name in EXCS: return ExtVal(name)
        for n in module.tree.body:
            if isinstance(n,ast.ImportFrom) and n.names[0].name=="*":
                module.imports["*"]=("from",("."*n.level)+(n.module or ""),"*")
                full=n.module or ""
                base=module.name.split(".")[:-1] if not self.repo.ispkg(module.name) else module.name.split(".")
                cand=full if n.level==0 else ".".join(base[:len(base)-(n.level-1)]+([full] if full else []))
                m=self.repo.module(cand)
                if m and (name in m.funcs or name in m.classes): return self.wrap(self.repo.member(m,name))
        raise PyRaise("NameError")
    def lookup(self,fr,name):
        f=fr
        while f is not None:
            if f.fid is not None:
                e=self.st.env[f.fid]
                if name in e:
                    x=e[name]
                    if isinstance(x,Poison): raise Unsupported("%s: %s"%(name,x.why))
                    if x is UNDEF: raise PyRaise("NameError")
                    return x
            f=f.parent
        return self.glob(fr.module,name)
    # ------------------------------------------------------------ calls
    def callv(self,f,args,kw=None):
        kw=kw or {}
        if isinstance(f,FnVal):
            if f.self is not None: return self.call(f.info,[f.self]+list(args),kw,f.self)
            return self.call(f.info,list(args),kw,None)
        if isinstance(f,LamVal): return self.calllam(f,list(args),kw)
        if isinstance(f,ClassInfo):
            c=self.contracts.get(f.module.name+"."+f.name)
            if c and c is not self.under and f.module.name+"."+f.name!=self.under:
                r=c(self,*args,**kw)
                if r is not NotImplemented: self.used.add(f.module.name+"."+f.name); return r
            o=self.alloc(ObjRec(f,{}))
            m=f.find("__init__")
            if m: self.call(m,[o]+list(args),kw,o)
            return o
        if isinstance(f,Builtin): return BUILTINS.get(f.name,METHODS.get(f.name,nobuiltin(f.name)))(self,*(([f.self] if f.self is not None else [])+list(args)),**kw)
        if isinstance(f,TypeVal): return TYPES[f.name](self,*args,**kw) if f.name in TYPES else nobuiltin(f.name)(self)
        if isinstance(f,ExtVal):
            if f.name in EXTS: return EXTS[f.name](self,*args,**kw)
            c=self.contracts.get(f.name)
            if c: self.used.add(f.name); return c(self,*args,**kw)
            raise Unsupported("external function %s"%f.name)
        if isinstance(f,Ref):
            r=self.rec(f)
            if isinstance(r,ObjRec) and r.cls.find("__call__"): return self.callv(self.getattr(f,"__call__"),args,kw)
            if isinstance(r,ObjRec) and "$call" in r.fields: return r.fields["$call"](self,*args,**kw)
        if callable(f) and getattr(f,"spec",False): return f(self,*args,**kw)
        raise Unsupported("call of %r"%(f,))
    def bind(self,node,args,kw,evald):
        a=node.args
        names=[x.arg for x in a.posonlyargs+a.args]; env={}
        if len(args)>len(names):
            if not a.vararg: raise PyRaise("TypeError")
            env[a.vararg.arg]=Tup(args[len(names):]); args=args[:len(names)]
        elif a.vararg: env[a.vararg.arg]=Tup([])
        for n,x in zip(names,args): env[n]=x
        rest={}
        for k,x in kw.items():
            if k in names or k in [z.arg for z in a.kwonlyargs]:
                if k in env: raise PyRaise("TypeError")
                env[k]=x
            else: rest[k]=x
        if rest and not a.kwarg: raise PyRaise("TypeError")
        if a.kwarg: env[a.kwarg.arg]=HostDict(rest)
        d=a.defaults
        for n,x in zip(names[len(names)-len(d):],d):
            if n not in env: env[n]=evald(x)
        for n,x in zip(a.kwonlyargs,a.kw_defaults):
            if n.arg not in env and x is not None: env[n.arg]=evald(x)
        for n in names:
            if n not in env: raise PyRaise("TypeError")
        return env
    def call(self,info,args,kw,selfv):
        c=self.contracts.get(info.qual)
        if c is not None and info.qual!=self.under_now():
            r=c(self,*args,**kw)
            if r is not NotImplemented:
                self.used.add(info.qual); return r
        return self.body(info,args,kw)
    def under_now(self): return self.under if self.depth==0 else None
    def body(self,info,args,kw):
        """execute the real body"""
        if self.depth>40: raise Unsupported("recursion")
        self.inlined.add(info.qual)
        env=self.bind(info.node,args,kw,lambda x:self.eval(x,self.frame_for(info.module)))
        fid=next(self.count); fr=Frame(fid,info); self.st.env[fid]=env
        self.depth+=1
        try:
            if info.is_gen:
                y=self.alloc(ListRec()); env["$yield"]=y
                try: self.block(info.node.body,fr)
                except ReturnX: pass
                r=Seq(self.rec(self.st.env[fid]["$yield"]).parts)
                return r
            try: self.block(info.node.body,fr); return None
            except ReturnX as e: return e.v
        finally: self.depth-=1
    def calllam(self,f,args,kw):
        env=self.bind(f.node,args,kw,lambda x:self.eval(x,f.frame))
        fid=next(self.count); fr=Frame(fid,f.frame.info,f.frame,f.module); self.st.env[fid]=env
        self.depth+=1
        try:
            if isinstance(f.node,ast.Lambda): return self.eval(f.node.body,fr)
            if has_yield(f.node):
                env["$yield"]=self.alloc(ListRec())
                try: self.block(f.node.body,fr)
                except ReturnX: pass
                return Seq(self.rec(env["$yield"]).parts)
            def run():
                try: self.block(f.node.body,fr); return None
                except ReturnX as e: return e.v
            if pure_node(f.node):
                st0=self.st
                try:
                    r=self.merged(run,"nested function")
                    if not newrefs(r,st0): return r
                except (Unsupported,Dead): pass
                self.st=st0; self.st.env[fid]=dict(env)
            return run()
        finally: self.depth-=1
    # ------------------------------------------------------------ statements
    def block(self,body,fr):
        for n in body: self.stmt(n,fr)
    def stmt(self,n,fr):
        m=getattr(self,"s_"+type(n).__name__,None)
        if m is None: raise Unsupported("statement %s line %d"%(type(n).__name__,n.lineno))
        return m(n,fr)
    def s_Pass(self,n,fr): pass
    def s_Import(self,n,fr):
        for a in n.names:
            nm=a.asname or a.name.split(".")[0]; full=a.name if a.asname else a.name.split(".")[0]
            if fr.fid is not None: self.st.env[fr.fid][nm]=self.repo.module(full) if full.split(".")[0]=="pymnet" else ExtVal(full)
    def s_ImportFrom(self,n,fr):
        m=fr.module; keep=dict(m.imports)
        for a in n.names:
            m.imports[a.asname or a.name]=("from",("."*n.level)+(n.module or ""),a.name)
            v=self.wrap(self.repo.resolve(m,a.asname or a.name))
            if fr.fid is not None: self.st.env[fr.fid][a.asname or a.name]=v
        m.imports=keep
    def s_Global(self,n,fr): raise Unsupported("global")
    def s_Expr(self,n,fr):
        if isinstance(n.value,ast.Constant): return
        if isinstance(n.value,ast.Yield): self.emit(fr,self.eval(n.value.value,fr) if n.value.value else None); return
        if isinstance(n.value,ast.YieldFrom):
            self.loop(self.eval(n.value.value,fr),lambda x:self.emit(fr,x),fr); return
        self.eval(n.value,fr)
    def emit(self,fr,v):
        f=fr
        y=self.st.env[f.fid]["$yield"]; self.append(y,v)
    def append(self,ref,v):
        r=self.rec(ref); self.put(ref,ListRec(r.parts+(Part((),TRUE,v),),r.hav))
    def extend(self,ref,s):
        r=self.rec(ref); self.put(ref,ListRec(r.parts+tuple(s.parts),r.hav))
    def s_Return(self,n,fr): raise ReturnX(self.eval(n.value,fr) if n.value else None)
    def s_Break(self,n,fr): raise BreakX()
    def s_Continue(self,n,fr): raise ContinueX()
    def s_FunctionDef(self,n,fr): self.st.env[fr.fid][n.name]=LamVal(n,fr.fid,fr.module,fr)
    def s_Assert(self,n,fr):
        if not self.branch(self.cond(n.test,fr)): raise PyRaise("AssertionError")
    def s_Raise(self,n,fr):
        e=n.exc
        if e is None: raise PyRaise("?")
        if isinstance(e,ast.Call): e=e.func
        raise PyRaise(e.id if isinstance(e,ast.Name) else "Exception")
    def s_If(self,n,fr):
        if self.branch(self.cond(n.test,fr)): self.block(n.body,fr)
        else: self.block(n.orelse,fr)
    def cond(self,e,fr):
        """condition of a test as a formula where possible"""
        return self.truth(self.eval(e,fr))
    def s_Assign(self,n,fr):
        v=self.eval(n.value,fr)
        for t in n.targets: self.assign(t,v,fr)
    def s_AnnAssign(self,n,fr):
        if n.value: self.assign(n.target,self.eval(n.value,fr),fr)
    def assign(self,t,v,fr):
        if isinstance(t,ast.Name): self.st.env[fr.fid][t.id]=v
        elif isinstance(t,(ast.Tuple,ast.List)):
            s=self.seqof(v)
            if not s.concrete(): raise Unsupported("unpacking a symbolic collection")
            it=s.items()
            if any(isinstance(x,ast.Starred) for x in t.elts): raise Unsupported("starred assignment")
            if len(it)!=len(t.elts): raise PyRaise("ValueError")
            for a,b in zip(t.elts,it): self.assign(a,b,fr)
        elif isinstance(t,ast.Attribute): self.setattr(self.eval(t.value,fr),t.attr,v)
        elif isinstance(t,ast.Subscript): self.store(self.eval(t.value,fr),self.eval(t.slice,fr),v)
        else: raise Unsupported("assignment")
    def s_AugAssign(self,n,fr):
        t=n.target
        if isinstance(t,ast.Name):
            cur=self.lookup(fr,t.id)
            self.assign(t,self.aug(n.op,cur,self.eval(n.value,fr)),fr)
        elif isinstance(t,ast.Subscript):
            o=self.eval(t.value,fr); i=self.eval(t.slice,fr); cur=self.index(o,i)
            self.store(o,i,self.aug(n.op,cur,self.eval(n.value,fr)))
        elif isinstance(t,ast.Attribute):
            o=self.eval(t.value,fr); self.setattr(o,t.attr,self.aug(n.op,self.getattr(o,t.attr),self.eval(n.value,fr)))
        else: raise Unsupported("augmented assignment")
    def aug(self,op,a,b):
        if isinstance(a,Ref) and isinstance(op,ast.Add):
            r=self.rec(a)
            if isinstance(r,ListRec): self.extend(a,self.seqof(b)); return a
        if isinstance(a,Ref) and isinstance(op,ast.BitOr) and isinstance(self.rec(a),SetRec):
            METHODS["set.update"](self,a,b); return a
        return self.binop(op,a,b)
    def s_Delete(self,n,fr):
        for t in n.targets:
            if isinstance(t,ast.Subscript): self.delete(self.eval(t.value,fr),self.eval(t.slice,fr))
            elif isinstance(t,ast.Name): self.st.env[fr.fid][t.id]=UNDEF
            else: raise Unsupported("del")
    def s_Try(self,n,fr):
        if n.finalbody: raise Unsupported("finally")
        try: self.block(n.body,fr)
        except PyRaise as e:
            for h in n.handlers:
                names=[h.type.id] if isinstance(h.type,ast.Name) else [x.id for x in h.type.elts] if isinstance(h.type,ast.Tuple) else None
                if names is None or e.name in names or "Exception" in names:
                    self.block(h.body,fr); return
            raise
        self.block(n.orelse,fr)
    def s_While(self,n,fr):
        k=0
        inv=self.whiles.get((fr.info.qual if fr.info else None)) if hasattr(self,"whiles") else None
        if inv: return inv(self,n,fr)
        while True:
            c=self.cond(n.test,fr); c=c if type(c) is bool else z3.simplify(c)
            if not (type(c) is bool or z3.is_true(c) or z3.is_false(c)): raise Unsupported("while loop with a symbolic condition")
            if not self.branch(c): self.block(n.orelse,fr); return
            k+=1
            if k>64: raise Unsupported("long while loop")
            try: self.block(n.body,fr)
            except BreakX: return
            except ContinueX: pass
    def s_For(self,n,fr):
        it=self.eval(n.iter,fr)
        def b(x):
            self.assign(n.target,x,fr); self.block(n.body,fr)
        broke=self.loop(it,b,fr)
        if not broke: self.block(n.orelse,fr)
    # ------------------------------------------------------------ loops
    def loop(self,iterable,body,fr):
        """runs body(element) for every element; True if left by break"""
        s=self.seqof(iterable)
        for p in s.parts:
            if p.concrete():
                try: body(p.val)
                except ContinueX: pass
                except BreakX: return True
            elif not p.vars:
                if self.branch(p.cond):
                    try: body(p.val)
                    except ContinueX: pass
                    except BreakX: return True
            else:
                if self.summarise(p,body,fr): return True
        return False
    elemlists={}; nonum=frozenset(); stable=(); stablesets=False; lazykinds={}; leafkinds={}
    def summarise(self,part,body,fr):
        keep,keepn,keeps,keepl=self.elemlists,self.nonum,self.stable,self.lazykinds
        nside=len(self.side) if self.side is not None else 0; pre=self.st; mark=(len(self.dec),self.pos)
        try:
            try: self.st=pre.copy(); return self.summarise1(part,body,fr)
            except Unsupported as e:
                if self.stablesets or "only add to" not in str(e) or (len(self.dec),self.pos)!=mark: raise
                # assume (and check) that sets which no iteration really changes keep their content
                if self.side is not None: del self.side[nside:]
                self.st=pre; self.stablesets=True
                try: return self.summarise1(part,body,fr)
                finally: self.stablesets=False
        finally: self.elemlists=keep; self.nonum=keepn; self.stable=keeps; self.lazykinds=keepl
    def summarise1(self,part,body,fr):
        vs,cond,val=part.inst([z3.FreshConst(V,"l") for _ in part.vars])
        pre=self.st.copy()
        hav={}   # location -> havoced value
        elem={}  # lists of fixed length: location -> positions that change
        havf={}  # names of havoced functions -> (location, leaf path, arity, kind)
        nonum=set(); lazyk={}; nside=len(self.side) if self.side is not None else 0
        for rounds in range(12):
            self.st=pre.copy(); havf={}; hrec={}
            if self.side is not None: del self.side[nside:]
            self.elemlists=elem; self.nonum=frozenset(nonum); self.stable=set(); self.lazykinds=dict(self.lazykinds,**{}); self.lazykinds.update(lazyk)
            for loc in hav: hrec[loc]=self.havoc(loc,havf)
            base=self.st.copy()
            self.scope=self.scope+list(vs)
            n0=len(self.st.pc)
            try:
                def run():
                    self.assume(cond); body(val)
                outs=self.explore(run)
            finally: self.scope=self.scope[:len(self.scope)-len(vs)]
            new=set()
            for o in outs:
                for k in base.heap:
                    if o.st.heap.get(k) is not base.heap[k]: new.add(("h",k))
                for f in base.env:
                    x,y=base.env[f],o.st.env.get(f,{})
                    for nme in y:
                        if x.get(nme,UNDEF) is not y[nme]: new.add(("e",f,nme))
            again=False
            for l in new:
                if l[0]!="h" or not isinstance(base.heap[l[1]],ListRec): continue
                b0=pre.heap[l[1]]
                if not isinstance(b0,ListRec) or b0.hav or not Seq(b0.parts).concrete(): continue
                if l in hav and l not in elem: continue
                rs=[o.st.heap[l[1]] for o in outs if isinstance(o.st.heap.get(l[1]),ListRec)]
                if any(len(r.parts)!=len(b0.parts) or not Seq(r.parts).concrete() for r in rs):
                    if l in elem: raise Unsupported("a list is changed and extended in a loop")
                    continue
                ch=set(i for r in rs for i in range(len(b0.parts)) if r.parts[i].val is not base.heap[l[1]].parts[i].val)
                if not ch<=elem.get(l,set()) or l not in elem: elem[l]=elem.get(l,set())|ch; again=True
            for l in new:
                # a dictionary that is empty before the loop: the kind of its values is the kind of what is stored
                if l[0]!="h" or not isinstance(pre.heap[l[1]],DictRec) or not pre.heap[l[1]].empty: continue
                if lazyk.get(l,("",))[0]=="rec": continue
                rs=[o.st.heap[l[1]] for o in outs if isinstance(o.st.heap.get(l[1]),DictRec) and not o.st.heap[l[1]].empty and o.st.heap[l[1]] is not base.heap[l[1]]]; ks=set()
                for r in rs:
                    try: x=r.val([z3.FreshConst(V,"d") for _ in range(r.shape)])
                    except NeedShape: ks.add(("lazy",r.shape)); continue
                    ks.add(("rec" if isinstance(x,RECS+(Ref,Tup)) else "num" if isnum(x) and type(x) is not bool else "V",r.shape))
                if len(ks)>1 and len(set(x for _,x in ks))==1: ks={("V" if all(k in ("num","V") for k,_ in ks) else "rec",next(iter(ks))[1])}
                if len(ks)==1 and next(iter(ks))[0]=="rec" and isinstance(x,RECS): lazyk[l]=("rec",next(iter(ks))[1],x); again=True
                if len(ks)==1 and next(iter(ks))[0] in ("num","V") and lazyk.get(l)!=next(iter(ks)) and lazyk.get(l,("",))[0]!="V": lazyk[l]=next(iter(ks)); again=True
            extra=[l for l in new if l not in hav]
            for l in extra: hav[l]=1
            if again or extra: continue
            # values that were numbers before the loop were assumed to stay numbers: check it
            norm=[o for o in outs if o.kind in ("ok","continue")]; nums=set((v[0],v[1]) for v in havf.values() if v[4]=="vnum"); bad=set()
            paths=[(AND(*[t for t in o.conds() if not t.eq(cond)]),o) for o in norm]
            for loc in set(l for l,_ in nums)|set(l for l,_ in self.stable):
                tr=self.leaftrans(loc,base,hrec.get(loc),paths,vs) if norm else {}
                for lp,(kind,gb,T) in tr.items():
                    if (loc,lp) in self.stable:
                        ks=[z3.FreshConst(V,"k") for _ in range(gb[0])]; x,y=T(ks),gb[1](ks)
                        if not x.eq(y) and not self.valid([t for _,t in pre.pc]+[cond],x==y,1500): bad.add((loc,lp,"chg"))
                    if (loc,lp) not in nums: continue
                    ks=[z3.FreshConst(V,"k") for _ in range(gb[0])]; h=[t for _,t in pre.pc]+[cond]; m=gb[0]//2
                    if not self.valid(h,V.is_num(T(ks))): bad.add((loc,lp))
                    if gb[0]%2==0 and (loc,lp,"sym") not in nonum and not self.valid(h,T(ks)==T(ks[m:]+ks[:m])): bad.add((loc,lp,"sym"))
            if not bad: break
            nonum|=bad|{b for b in self.nonum if len(b)==3 and b[2]!="chg"}
        else: raise Unsupported("loop writes do not stabilise")
        self.leafkinds=dict(self.leafkinds)
        for v in havf.values(): self.leafkinds[(v[0],v[1])]=v[4]
        self.st=pre
        if not outs: return False
        norm=[o for o in outs if o.kind in ("ok","continue")]; exits=[o for o in outs if o not in norm]
        # the condition itself was assumed first
        def bc(o): return AND(*[t for t in o.conds() if not t.eq(cond)])
        # ---- early exits
        for o in exits:
            g=AND(cond,bc(o))
            if o.kind=="raise":
                used=[h for h in havf if h in deepfuns(g)]
                if used: raise Unsupported("an exception that depends on earlier iterations")
                if self.branch(EXISTS(vs,[g])): raise PyRaise(o.val)
            else:
                if any(h in deepfuns(g) for h in havf) or any(self.effects(x,base,o) for x in norm): raise Unsupported("leaving a loop that has effects")
                if self.branch(EXISTS(vs,[g])):
                    ws=[self.fresh("w") for _ in vs]; m=list(zip(vs,ws))
                    self.assume(zsub(g,m))
                    for t in self.hoist(o,vs,cond): self.fact(t)
                    # run the leaving iteration for real with the witness
                    mark=len(self.dec)
                    try: body(vsubst(val,m))
                    except BreakX:
                        if o.kind=="break": return True
                        raise
                    except ContinueX: raise Dead()
                    raise Dead()
        for o in norm:
            for t in self.hoist(o,vs,TRUE):
                if any(h in deepfuns(t) for h in havf): continue
                self.fact(t)
        if not hav: return False
        # ---- transitions of the written locations
        paths=[(bc(o),o) for o in norm]
        res={}   # loc -> new value builder, filled in two passes
        deltas={}
        empt={}
        for name,(loc,lp,nsc,k,kind) in havf.items():
            if kind=="bool": empt[name]=(None,lambda *a:FALSE)
            elif kind in ("num","vnum"): empt[name]=(None,lambda *a:z3.RealVal(0))
        trans={}; self.elemlists=elem
        for loc in hav:
            for lp,(kind,getter_base,getters) in self.leaftrans(loc,base,hrec.get(loc),paths,vs).items(): trans[(loc,lp)]=(kind,getter_base,getters)
        hyp=[t for _,t in pre.pc]+[cond]
        reads={}   # havoced bool leaves whose earlier content is read
        plan={}
        # domains that no iteration changes keep their content
        same={}; todo=[]
        for (loc,lp),(kind,gb,T) in trans.items():
            n=gb[0]; ks=[z3.FreshConst(V,"k") for _ in range(n)]
            h=gb[1](ks); t=T(ks)
            if t.eq(h) or (lp and (lp[-1]=="dom" if kind=="bool" else kind=="V" and len(lp)>1 and lp[-1]!="$W") and self.valid(hyp,t==h,1500)):
                for nm,v in havf.items():
                    if v[0]==loc and v[1]==lp and v[4] in ("bool","V"):
                        pg=self.preleaf(loc,lp,pre); same[nm]=(None,lambda *a,pg=pg,nsc=v[2]:pg(list(a[nsc:])))
                continue
            todo.append((loc,lp,kind,ks,h,t))
        for loc,lp,kind,ks,h,t in todo:
            if same: h,t=subst_funs(h,same),subst_funs(t,same)
            if t.eq(h): continue
            if kind=="bool":
                d=subst_funs(t,empt)
                if self.valid(hyp,t==OR(h,d)):
                    plan[(loc,lp)]=("add",ks,d); continue
                # removal only: t == h and not d2
                full={nm:((None,lambda *a:TRUE) if v[4]=="bool" else empt.get(nm,(None,None))) for nm,v in havf.items() if v[4]=="bool"}
                d2=NOT(subst_funs(t,{nm:f for nm,f in full.items()}))
                if not any(h_ in deepfuns(d2) for h_ in havf) and self.valid(hyp,t==AND(h,NOT(d2))):
                    plan[(loc,lp)]=("remove",ks,d2); continue
                # written over in one part: t == (x if c else h)
                for c in self.boolconds(t):
                    if any(h_ in deepfuns(c) for h_ in havf): continue
                    x=subst_funs(z3.simplify(z3.substitute(t,(c,TRUE))),empt)
                    if self.valid(hyp+[NOT(c)],t==h) and self.valid(hyp+[c],t==x): plan[(loc,lp)]=("store",ks,[(c,x)]); break
                if (loc,lp) in plan: continue
                raise Unsupported("loop does not only add to (or remove from) a set: %s %s"%(loc,lp))
            if kind=="num":
                d=subst_funs(t,empt)
                if any(h_ in deepfuns(d) for h_ in havf): raise Unsupported("accumulation depends on earlier iterations")
                if self.valid(hyp,t==h+d): plan[(loc,lp)]=("sum",ks,d); continue
            # store
            gs=[]
            self.itesplit(t,h,[],gs)
            gs=[(g,x) for g,x in gs if not ((iszero(x) or any(h_ in deepfuns(x) for h_ in havf if havf[h_][4]!="bool")) and x.sort()==h.sort() and self.valid(hyp+[g],x==h,1000))]
            gs=[(self.shorter(g,havf,hyp),x) for g,x in gs]
            if not gs: continue
            if any(h_ in deepfuns(g) for g,_ in gs for h_ in havf):
                for c in self.boolconds(t):
                    if any(h_ in deepfuns(c) for h_ in havf): continue
                    x=subst_funs(z3.simplify(z3.substitute(t,(c,TRUE))),empt)
                    if not any(h_ in deepfuns(x) for h_ in havf) and self.valid(hyp+[NOT(c)],t==h) and self.valid(hyp+[c],t==x): plan[(loc,lp)]=("store",ks,[(c,x)]); break
                if (loc,lp) in plan: continue
            if not any(any(h_ in deepfuns(x) for h_ in havf if havf[h_][4]!="bool") for g,x in gs):
                plan[(loc,lp)]=("store",ks,gs); continue
            if kind=="V" and z3.is_app(h) and h.decl().eq(V.num):
                # additive on numbers stored as values
                d=z3.simplify(subst_funs(nvpush(t),empt)); r=h.arg(0)
                if not any(h_ in deepfuns(d) for h_ in havf) and self.valid(hyp,t==V.num(r+d)):
                    plan[(loc,lp)]=("vsum",ks,d); continue
            raise Unsupported("loop effect on %s %s has no summary"%(loc,lp))
        # ---- what earlier iterations did, for reads of accumulating sets
        before=None; readmap={}
        def bef():
            nonlocal before
            if before is None:
                f=z3.Function(self.name("before"),*([x.sort() for x in self.scope]+[V]*(2*len(vs))+[B])); sc=list(self.scope)
                before=lambda a,b:f(*(sc+list(a)+list(b)))
                a=[z3.FreshConst(V,"p") for _ in vs]; b=[z3.FreshConst(V,"q") for _ in vs]
                ca,cb=zsub(cond,list(zip(vs,a))),zsub(cond,list(zip(vs,b)))
                self.fact(FORALL(a+b,NOT(AND(before(a,b),before(b,a)))))
                self.fact(FORALL(a+b,IMP(AND(ca,cb,NOT(eqc(a,b))),OR(before(a,b),before(b,a)))))
            return before
        for name,(loc,lp,nsc,k,kind) in havf.items():
            if kind!="bool": continue
            pl=plan.get((loc,lp))
            pg=self.preleaf(loc,lp,pre)
            if pl is None: readmap[name]=(None,lambda *a,pg=pg,nsc=nsc:pg(list(a[nsc:]))); continue
            if pl[0]=="add":
                _,ks,d=pl
                if any(h_ in deepfuns(d) for h_ in havf): readmap[name]=None; continue
                def rd(*a,ks=ks,d=d,pg=pg,nsc=nsc):
                    kk=list(a[nsc:]); cur=list(a[nsc:]); ys=[z3.FreshConst(V,"y") for _ in vs]
                    dd=zsub(zsub(d,list(zip(vs,ys))),list(zip(ks,kk)))
                    return OR(pg(kk),EXISTS(ys,[zsub(cond,list(zip(vs,ys))),dd,bef()(ys,vs)]))
                readmap[name]=(None,rd)
            else: readmap[name]=None
        for name,(loc,lp,nsc,k,kind) in havf.items():
            if kind!="bool" and (loc,lp) not in plan:
                pg=self.preleaf(loc,lp,pre); readmap[name]=(None,(lambda *a,pg=pg,nsc=nsc:nvpush(toV(pg(list(a[nsc:]))))) if kind=="vnum" else (lambda *a,pg=pg,nsc=nsc:pg(list(a[nsc:]))))
        for name,(loc,lp,nsc,k,kind) in havf.items():
            pl=plan.get((loc,lp))
            if kind not in ("V","num","vnum") or not pl or pl[0]!="store" or name in readmap: continue
            _,ks,gs=pl; g0=OR(*[g for g,_ in gs])
            if any(h_ in deepfuns(g0) for h_ in havf): continue
            # what an earlier iteration wrote is not described, but where nothing was written the old value is still there
            so=[x.sort() for x in self.scope]; U=z3.Function(self.name("older"),*(so+[V]*(len(vs)+len(ks))+[self.preleaf(loc,lp,pre)(ks).sort()])); sc=list(self.scope); pg=self.preleaf(loc,lp,pre)
            def rd(*a,ks=ks,g0=g0,pg=pg,nsc=nsc,U=U,sc=sc,kind=kind):
                kk=list(a[nsc:]); ys=[z3.FreshConst(V,"y") for _ in vs]
                w=EXISTS(ys,[zsub(cond,list(zip(vs,ys))),zsub(zsub(g0,list(zip(vs,ys))),list(zip(ks,kk))),bef()(ys,vs)])
                r=ITE(w,U(*(sc+list(vs)+kk)),pg(kk)); return nvpush(toV(r)) if kind=="vnum" else r
            readmap[name]=(None,rd)
        if self.side is not None:
            for q in range(nside,len(self.side)):
                what,hs,goal=self.side[q]; us={u:readmap[u] for u in havf if readmap.get(u) is not None and any(u in deepfuns(t) for t in hs+[goal])}
                if not us: continue
                n0=len(self.st.pc); hs,goal=[subst_funs(t,us) for t in hs],subst_funs(goal,us)
                self.side[q]=(what,hs+([t for _,t in self.st.pc if "before" in str(t)] if before is not None else []),goal)
        def clean(t):
            us=[h_ for h_ in havf if h_ in deepfuns(t)]
            if not us: return t
            if any(readmap.get(u) is None for u in us): raise Unsupported("reads what earlier iterations wrote: %s"%us)
            return subst_funs(t,{u:readmap[u] for u in us})
        # ---- results
        self.elemlists=elem
        for loc in hav:
            self.finish(loc,pre,base,hrec.get(loc),paths,plan,vs,cond,clean,havf)
        return False
    def effects(self,x,base,o):
        """does a normally ending iteration change anything that matters after an early exit"""
        for k in base.heap:
            if x.st.heap.get(k) is not base.heap[k]: return True
        return False
    def shorter(self,g,havf,hyp):
        """drops the parts of a condition that speak about earlier iterations and follow from the others"""
        cs=sum([conj(c) for c in conj(g)],[]); i=0
        if not any(h in deepfuns(g) for h in havf): return g
        while i<len(cs):
            if any(h in deepfuns(cs[i]) for h in havf) and self.valid(hyp+cs[:i]+cs[i+1:],cs[i],1000): del cs[i]
            else: i+=1
        return AND(*cs)
    def valid(self,hyp,g,timeout=4000):
        g=z3.simplify(g)
        if z3.is_true(g): return True
        return sat(list(hyp)+[NOT(g)],timeout)==False
    def boolconds(self,t):
        """conditions of the if-then-else terms of a formula"""
        out=[]; seen=set(); st=[t]
        while st:
            x=st.pop(0)
            if x.get_id() in seen or z3.is_quantifier(x): continue
            seen.add(x.get_id())
            if z3.is_app(x):
                if x.decl().kind()==z3.Z3_OP_ITE: out.append(x.arg(0))
                st.extend(x.children())
        return out[:4]
    def itesplit(self,t,h,g,out):
        if t.eq(h): return
        if z3.is_app(t) and t.decl().kind()==z3.Z3_OP_ITE:
            c=t.arg(0); self.itesplit(t.arg(1),h,g+[c],out); self.itesplit(t.arg(2),h,g+[NOT(c)],out); return
        out.append((AND(*g),t))
    def havoc(self,loc,havf):
        if loc[0]=="e":
            _,f,n=loc; v=self.st.env[f].get(n,UNDEF)
            if v is UNDEF: return None
            if isnum(v) or (isV(v) and False):
                c=self.fresh("h",R); havf[c.decl().name()]=(loc,(),len(self.scope),0,"num"); self.st.env[f][n]=c; return c
            if isB(v) or type(v) is bool:
                c=self.fresh("h",B); havf[c.decl().name()]=(loc,(),len(self.scope),0,"bool"); self.st.env[f][n]=c; return c
            if isinstance(v,Seq): self.st.env[f][n]=Poison("changed in a loop"); return None
            self.st.env[f][n]=Poison("value from an earlier iteration"); return None
        r=self.st.heap[loc[1]]
        nr=self.havrec(r,loc,(),[],havf); self.st.heap[loc[1]]=nr; return nr
    def havrec(self,r,loc,lp,keys,havf):
        """record with every leaf replaced by a new function; keys: number of outer keys"""
        nk=len(keys)
        if isinstance(r,SetRec):
            if self.stablesets and not keys and (loc,lp,"chg") not in self.nonum: self.stable.add((loc,lp)); return r
            f,nm,nsc=self.freshfun("h",nk+r.shape,B); havf[nm]=(loc,lp,nsc,nk+r.shape,"bool")
            return SetRec(lambda k,f=f:f(list(keys)+list(k)),r.shape)
        if isinstance(r,DictRec):
            if not r.empty and (loc,lp+("dom",),"chg") not in self.nonum and isinstance(r.val([z3.FreshConst(V,"d") for _ in range(r.shape)]),ObjRec):
                self.stable.add((loc,lp+("dom",))); t=self.havtemplate(r.val([z3.FreshConst(V,"d") for _ in range(r.shape)]),loc,lp+("val",),nk+r.shape,havf,lambda ks:r.val(ks[nk:]))
                return DictRec(r.dom,lambda k:t(list(keys)+list(k),r.dom(k)),r.shape)
            f,nm,nsc=self.freshfun("h",nk+r.shape,B); havf[nm]=(loc,lp+("dom",),nsc,nk+r.shape,"bool")
            if r.empty and not lp and loc in self.lazykinds:
                kind,shape=self.lazykinds[loc][:2]
                if kind=="rec":
                    f,nm,nsc=self.freshfun("h",nk+shape,B); havf[nm]=(loc,lp+("dom",),nsc,nk+shape,"bool"); dom=lambda k:f(list(keys)+list(k))
                    t=self.havtemplate(self.lazykinds[loc][2],loc,lp+("val",),nk+shape,havf,None); return DictRec(dom,lambda k:t(list(keys)+list(k),dom(k)),shape)
                f,nm,nsc=self.freshfun("h",nk+shape,B); havf[nm]=(loc,lp+("dom",),nsc,nk+shape,"bool")
                g,nm,nsc=self.freshfun("h",nk+shape,R if kind=="num" else V); havf[nm]=(loc,lp+("val",),nsc,nk+shape,kind); dom=lambda k:f(list(keys)+list(k))
                if kind=="num": return DictRec(dom,lambda k:z3.If(dom(k),g(list(keys)+list(k)),z3.RealVal(0)),shape)
                return DictRec(dom,lambda k:g(list(keys)+list(k)),shape)
            if r.empty:
                return DictRec(lambda k:f(list(keys)+list(k)),LazyVal(self,loc,lp,keys,havf,r.shape),r.shape)
            d=[z3.FreshConst(V,"d") for _ in range(r.shape)]; v0=r.val(d)
            dom=lambda k:f(list(keys)+list(k))
            if isinstance(v0,RECS):
                store={}
                names={}
                t=self.havtemplate(v0,loc,lp+("val",),nk+r.shape,havf,None)
                return DictRec(dom,lambda k:t(list(keys)+list(k),dom(k)),r.shape)
            sort=R if isnum(v0) else B if (isB(v0) or type(v0) is bool) else V
            g,nm,nsc=self.freshfun("h",nk+r.shape,sort); kind={R:"num",B:"bool"}.get(sort,"V"); havf[nm]=(loc,lp+("val",),nsc,nk+r.shape,kind)
            if sort==R: return DictRec(dom,lambda k:z3.If(dom(k),g(list(keys)+list(k)),z3.RealVal(0)),r.shape)
            return DictRec(dom,lambda k:g(list(keys)+list(k)),r.shape)
        if isinstance(r,FunRec):
            if (loc,lp) not in self.nonum and self.numeric(r.fn([z3.FreshConst(V,"k") for _ in range(r.n)])):
                g,nm,nsc=self.freshfun("h",nk+r.n,R); havf[nm]=(loc,lp,nsc,nk+r.n,"vnum"); m=r.n//2; x=[z3.FreshConst(V,"k") for _ in range(r.n)]
                # a function that is symmetric before the loop is first assumed to stay symmetric
                if not keys and r.n and r.n%2==0 and (loc,lp,"sym") not in self.nonum and self.valid(self.pcs(),r.fn(x)==r.fn(x[m:]+x[:m]),1500):
                    return FunRec(lambda k:V.num(g(list(k))+g(list(k[m:])+list(k[:m]))),r.n,r.dims)
                self.nonum=self.nonum|{(loc,lp,"sym")}
                return FunRec(lambda k:V.num(g(list(keys)+list(k))),r.n,r.dims)
            g,nm,nsc=self.freshfun("h",nk+r.n,V); havf[nm]=(loc,lp,nsc,nk+r.n,"V"); return FunRec(lambda k:g(list(keys)+list(k)),r.n,r.dims)
        if isinstance(r,ListRec): 
            if r.hav: return r
            if loc in self.elemlists and lp==():
                ps=[]
                for i,p in enumerate(r.parts):
                    if i not in self.elemlists[loc]: ps.append(p); continue
                    if isnum(p.val) and not isinstance(p.val,bool):
                        c,nm,nsc=self.freshfun("h",0,R); havf[nm]=(loc,(i,),nsc,0,"num"); ps.append(Part((),TRUE,c([])))
                    else: ps.append(Part((),TRUE,Poison("value from an earlier iteration")))
                return ListRec(ps)
            return ListRec((),True)
        if isinstance(r,ObjRec):
            fs={}
            for a,b in r.fields.items():
                if isinstance(b,RECS): fs[a]=self.havrec(b,loc,lp+(a,),keys,havf)
                elif isnum(b) and not isinstance(b,bool) and a not in ("aspects","noEdge"):
                    c,nm,nsc=self.freshfun("h",nk,R); havf[nm]=(loc,lp+(a,),nsc,nk,"num"); fs[a]=c(list(keys))
                else: fs[a]=b
            return ObjRec(r.cls,fs)
        raise Unsupported("loop changes %r"%(r,))
    def numeric(self,t):
        t=z3.simplify(toV(t))
        if z3.is_app(t) and t.decl().eq(V.num): return True
        return self.valid(self.pcs(),V.is_num(t),1000)
    def havtemplate(self,v0,loc,lp,nk,havf,get=None):
        """inner record of a family as a function of the outer keys (inner content only inside of the domain)"""
        if isinstance(v0,SetRec):
            f,nm,nsc=self.freshfun("h",nk+v0.shape,B); havf[nm]=(loc,lp,nsc,nk+v0.shape,"bool")
            return lambda keys,g:SetRec(lambda k:AND(g,f(list(keys)+list(k))),v0.shape)
        if isinstance(v0,DictRec):
            f,nm,nsc=self.freshfun("h",nk+v0.shape,B); havf[nm]=(loc,lp+("dom",),nsc,nk+v0.shape,"bool")
            w=v0.val([z3.FreshConst(V,"d") for _ in range(v0.shape)])
            if isinstance(w,RECS): 
                t=self.havtemplate(w,loc,lp+("val",),nk+v0.shape,havf,get and (lambda ks:get(ks[:nk]).val(ks[nk:])))
                return lambda keys,g:DictRec(lambda k:AND(g,f(list(keys)+list(k))),lambda k:t(list(keys)+list(k),AND(g,f(list(keys)+list(k)))),v0.shape)
            sort=R if isnum(w) else B if isB(w) or type(w) is bool else V
            h,nm,nsc=self.freshfun("h",nk+v0.shape,sort); havf[nm]=(loc,lp+("val",),nsc,nk+v0.shape,{R:"num",B:"bool"}.get(sort,"V"))
            if sort==R: return lambda keys,g:DictRec(lambda k:AND(g,f(list(keys)+list(k))),lambda k:z3.If(AND(g,f(list(keys)+list(k))),h(list(keys)+list(k)),z3.RealVal(0)),v0.shape)
            return lambda keys,g:DictRec(lambda k:AND(g,f(list(keys)+list(k))),lambda k:h(list(keys)+list(k)),v0.shape)
        if isinstance(v0,FunRec):
            h,nm,nsc=self.freshfun("h",nk+v0.n,V); havf[nm]=(loc,lp,nsc,nk+v0.n,"V")
            return lambda keys,g:FunRec(lambda k:h(list(keys)+list(k)),v0.n,v0.dims)
        if isinstance(v0,ObjRec):
            sub={a:self.havtemplate(b,loc,lp+(a,),nk,havf,get and (lambda ks,a=a:get(ks).fields[a])) for a,b in v0.fields.items() if isinstance(b,RECS)}
            for a,b in v0.fields.items():
                if isV(b) and get and (loc,lp+(a,),"chg") not in self.nonum: self.stable.add((loc,lp+(a,))); sub[a]=lambda keys,g,a=a:get(list(keys)).fields[a]
                elif isV(b):
                    h,nm,nsc=self.freshfun("h",nk,V); havf[nm]=(loc,lp+(a,),nsc,nk,"V"); sub[a]=lambda keys,g,h=h:h(list(keys))
                elif isR(b) and a!="noEdge": raise Unsupported("loop changes a family of objects with numbers")
            return lambda keys,g:ObjRec(v0.cls,{a:(sub[a](keys,g) if a in sub else b) for a,b in v0.fields.items()})
        if isinstance(v0,ListRec) and Seq(v0.parts).concrete() and lp:
            sub=[self.havtemplate(p.val,loc,lp+(i,),nk,havf,get and (lambda ks,i=i:get(ks).parts[i].val)) if isinstance(p.val,RECS) else None for i,p in enumerate(v0.parts)]
            return lambda keys,g:ListRec([Part((),TRUE,sub[i](keys,g) if sub[i] else p.val) for i,p in enumerate(v0.parts)])
        raise Unsupported("loop changes a family of %s"%type(v0).__name__)
    # leaves: {path: (kind, nkeys, getter(keys))} of a value
    def leaves(self,v,lp=(),wrap=None,nk=0,dom=None):
        """getter over flat key list"""
        out={}
        G=dom or (lambda ks:TRUE)
        get=wrap or (lambda ks:v)
        if isinstance(v,SetRec): out[lp]=("bool",nk+v.shape,lambda ks:AND(G(ks[:nk]),get(ks[:nk]).mem(list(ks[nk:]))))
        elif isinstance(v,DictRec):
            n=nk+v.shape
            out[lp+("dom",)]=("bool",n,lambda ks:AND(G(ks[:nk]),get(ks[:nk]).dom(list(ks[nk:n]))))
            if not v.empty:
                w0=v.val([z3.FreshConst(V,"d") for _ in range(v.shape)])
                inner=lambda ks:get(ks[:nk]).val(list(ks[nk:n]))
                D=lambda ks:AND(G(ks[:nk]),get(ks[:nk]).dom(list(ks[nk:n])))
                if isinstance(w0,RECS): out.update(self.leaves(w0,lp+("val",),inner,n,D))
                elif isnum(w0): out[lp+("val",)]=("num",n,lambda ks:ITE(D(ks),real(inner(ks)),z3.RealVal(0)))
                elif isB(w0) or type(w0) is bool: out[lp+("val",)]=("bool",n,lambda ks:AND(D(ks),tobool(inner(ks))))
                elif isinstance(w0,Ref): pass
                else: out[lp+("val",)]=("V",n,lambda ks:toV(inner(ks)))
        elif isinstance(v,ListRec) and lp==() and Seq(v.parts).concrete():
            for i,p in enumerate(v.parts):
                if isnum(p.val) and type(p.val) is not bool: out[(i,)]=("num",0,lambda ks,x=p.val:real(x))
        elif isinstance(v,FunRec): out[lp]=("V",nk+v.n,lambda ks:get(ks[:nk]).fn(list(ks[nk:])))
        elif isinstance(v,ObjRec):
            for a,b in v.fields.items():
                if isinstance(b,RECS): out.update(self.leaves(b,lp+(a,),(lambda ks,a=a:get(ks).fields[a]),nk,dom))
                elif isnum(b) and not (nk and not isz(b)): out[lp+(a,)]=("num",nk,lambda ks,a=a:real(get(ks).fields[a]))
                elif isV(b) and nk: out[lp+(a,)]=("V",nk,lambda ks,a=a:toV(get(ks).fields[a]))
        elif isinstance(v,ListRec) and lp and nk and Seq(v.parts).concrete():
            for i,p in enumerate(v.parts):
                if isinstance(p.val,RECS): out.update(self.leaves(p.val,lp+(i,),(lambda ks,i=i:get(ks).parts[i].val),nk,dom))
        return out
    def locval(self,loc,st):
        if loc[0]=="e": return st.env[loc[1]].get(loc[2],UNDEF)
        return st.heap[loc[1]]
    def vleaves(self,v):
        if isinstance(v,RECS): return self.leaves(v)
        if isB(v) or type(v) is bool: return {():("bool",0,lambda ks:tobool(v))}
        if isnum(v): return {():("num",0,lambda ks:real(v))}
        return {}
    def leaftrans(self,loc,base,h,paths,vs):
        out={}
        if h is None and loc[0]=="e": return out
        bl=self.vleaves(self.locval(loc,base))
        ol=[(c,self.vleaves(self.locval(loc,o.st))) for c,o in paths]
        vals=[self.locval(loc,o.st) for c,o in paths]
        if any(isinstance(v,MovedRec) for v in vals): raise Unsupported("a container is stored elsewhere inside of the loop")
        names=set(bl)
        for _,l in ol: names|=set(l)
        for lp in names:
            ks=[x[lp] for x in [bl]+[l for _,l in ol] if lp in x]
            kinds=set(k[0] for k in ks); n=ks[0][1]
            kind="V" if len(kinds)>1 else kinds.pop()
            def cv(t,kind=kind): return toV(t) if kind=="V" else t
            dflt={"bool":FALSE,"num":z3.RealVal(0),"V":NONE}[kind]
            b=bl[lp][2] if lp in bl else (lambda ks:dflt)
            def T(ks,lp=lp,b=b,cv=cv,dflt=dflt):
                r=None
                for c,l in reversed(ol):
                    x=cv(l[lp][2](ks)) if lp in l else cv(b(ks))
                    r=x if r is None else ITE(c,x,r)
                return r
            out[lp]=(kind,(n,lambda ks,b=b,cv=cv:cv(b(ks))),T)
        return out
    def preleaf(self,loc,lp,pre):
        l=self.vleaves(self.locval(loc,pre))
        if lp in l: 
            g=l[lp][2]; return lambda ks:g(ks)
        if (loc,lp) in self.leafkinds: return lambda ks:{"num":z3.RealVal(0),"vnum":z3.RealVal(0),"V":NONE}.get(self.leafkinds[(loc,lp)],FALSE)
        return lambda ks:FALSE
    def finish(self,loc,pre,base,h,paths,plan,vs,cond,clean,havf):
        pv=self.locval(loc,pre)
        if loc[0]=="e":
            f,n=loc[1],loc[2]
            pl=plan.get((loc,()))
            if pl is None:
                if h is None: self.st.env[f][n]=Poison("assigned inside of a loop over a symbolic collection")
                return
            self.st.env[f][n]=self.result(pl,self.vleaves(pv)[()],vs,cond,clean)([])
            return
        if isinstance(pv,ListRec) and loc in self.elemlists:
            pl=self.vleaves(pv); ps=[]
            for i,p in enumerate(pv.parts):
                if i not in self.elemlists[loc]: ps.append(p); continue
                q=plan.get((loc,(i,)))
                if (i,) not in pl: ps.append(Part((),TRUE,Poison("assigned inside of a loop over a symbolic collection"))); continue
                ps.append(p if q is None else Part((),TRUE,self.result(q,pl[(i,)],vs,cond,clean)([])))
            self.st.heap[loc[1]]=ListRec(ps); return
        if isinstance(pv,ListRec):
            add=[]
            for c,o in paths:
                r=o.st.heap[loc[1]]
                for p in r.parts:
                    add.append(Part(tuple(vs)+p.vars,clean(AND(cond,c,p.cond)),self.cleanval(p.val,clean)))
            self.st.heap[loc[1]]=ListRec(pv.parts+tuple(add),pv.hav); return
        # structure as after one iteration (an empty dictionary has no value leaf before)
        st=self.locval(loc,paths[0][1].st)
        for c,o in paths:
            x=self.locval(loc,o.st)
            if isinstance(x,DictRec) and not x.empty: st=x
        pls=self.vleaves(pv); new={}
        for lp,(kind,n,g) in self.vleaves(st).items():
            p=pls.get(lp,(kind,n,lambda ks,kind=kind:{"bool":FALSE,"num":z3.RealVal(0),"V":NONE}[kind]))
            pl=plan.get((loc,lp))
            if pl is None: new[lp]=p[2]
            else: new[lp]=self.result(pl,p,vs,cond,clean)
        self.st.heap[loc[1]]=self.rebuild(st,(),new,[])
    def cleanval(self,v,clean):
        if isz(v): return clean(v)
        if isinstance(v,Tup): return Tup([self.cleanval(x,clean) for x in v.items])
        if isinstance(v,Ref) and v.path: return Ref(v.oid,tuple((k,(tuple(clean(c) for c in p) if k=="k" else p)) for k,p in v.path))
        if isinstance(v,Seq): return Seq([Part(p.vars,clean(p.cond),self.cleanval(p.val,clean)) for p in v.parts])
        return v
    def result(self,pl,preleaf,vs,cond,clean):
        how,ks,d=pl; pg=preleaf[2]; kind=preleaf[0]
        if how=="add":
            d=clean(d)
            def f(kk):
                ys=[z3.FreshConst(V,"y") for _ in vs]; m=list(zip(vs,ys))+list(zip(ks,kk))
                return OR(tobool(pg(kk)),EXISTS(ys,[zsub(cond,m),zsub(d,m)]))
            return self.memo(f,len(ks))
        if how=="remove":
            d=clean(d)
            def f(kk):
                ys=[z3.FreshConst(V,"y") for _ in vs]; m=list(zip(vs,ys))+list(zip(ks,kk))
                return AND(tobool(pg(kk)),NOT(EXISTS(ys,[zsub(cond,m),zsub(d,m)])))
            return self.memo(f,len(ks))
        if how=="sum":
            d=clean(d)
            def f(kk):
                ys=[z3.FreshConst(V,"y") for _ in vs]; m=list(zip(vs,ys))+list(zip(ks,kk))
                return real(pg(kk))+SUMITE(ys,zsub(cond,m),zsub(d,m))
            return self.memo(f,len(ks))
        if how=="vsum":
            d=clean(d); k0=[z3.FreshConst(V,"k") for _ in ks]
            self.need(FORALL(k0,IMP(self.touched(ks,k0,vs,cond,d),V.is_num(toV(pg(k0))))),"numbers are accumulated onto numbers")
            def f(kk):
                ys=[z3.FreshConst(V,"y") for _ in vs]; m=list(zip(vs,ys))+list(zip(ks,kk))
                return V.num(nvpush(toV(pg(kk)))+SUMITE(ys,zsub(cond,m),zsub(d,m)))
            return self.memo(f,len(ks))
        if how=="store":
            gs=[(clean(g),clean(x)) for g,x in d]
            G=OR(*[g for g,_ in gs]); val=gs[-1][1]
            for g,x in reversed(gs[:-1]): val=ITE(g,x,val)
            # uniqueness: iterations writing the same place write the same value
            k0=[z3.FreshConst(V,"k") for _ in ks]; a=[z3.FreshConst(V,"a") for _ in vs]; b=[z3.FreshConst(V,"b") for _ in vs]
            ma,mb=list(zip(vs,a))+list(zip(ks,k0)),list(zip(vs,b))+list(zip(ks,k0))
            same=EQ(zsub(val,ma),zsub(val,mb)) if val.sort()==V else zsub(val,ma)==zsub(val,mb)
            if not z3.is_true(z3.simplify(same)):
                self.need(FORALL(k0+a+b,IMP(AND(zsub(cond,ma),zsub(G,ma),zsub(cond,mb),zsub(G,mb)),same)),"the result does not depend on the order of the iterations")
            used=any(v.decl().name() in consts(val) for v in vs)
            # try to solve for the loop variables
            kk0=[z3.FreshConst(V,"k") for _ in ks]; m0=list(zip(vs,a))+list(zip(ks,kk0))
            rem,cs,sub=solve_points(list(a),sum([conj(c) for c in conj(z3.simplify(zsub(AND(cond,G),m0)))],[])) if len(gs)==1 else (list(a),[],[])
            vv=zsub(zsub(val,m0),sub)
            if len(gs)==1 and not any(contains(vv,{x.decl().name()}) for x in a):
                cond2=EXISTS(rem,cs) if rem else AND(*cs)
                def f(kk): 
                    m=list(zip(kk0,kk)); x=zsub(vv,m); p=pg(kk)
                    return ITE(zsub(cond2,m),x,toV(p) if x.sort()==V else real(p) if x.sort()==R else tobool(p))
                return self.memo(f,len(ks))
            # witness functions
            sc=list(self.scope); W=[z3.Function(self.name("wit"),*([x.sort() for x in sc]+[V]*len(ks)+[V])) if sc or ks else z3.Const(self.name("wit"),V).decl() for _ in vs]
            at=lambda kk:[w(*(sc+list(kk))) for w in W]
            m1=list(zip(vs,a))+list(zip(ks,k0)); m2=list(zip(vs,at(k0)))+list(zip(ks,k0))
            self.fact(FORALL(k0+a,IMP(zsub(AND(cond,G),m1),AND(zsub(AND(cond,G),m2),zsub(val,m1)==zsub(val,m2)))))
            def f(kk):
                m=list(zip(vs,at(kk)))+list(zip(ks,kk)); x=zsub(val,m); p=pg(kk)
                return ITE(zsub(AND(cond,G),m),x,toV(p) if x.sort()==V else real(p) if x.sort()==R else tobool(p))
            return self.memo(f,len(ks))
        raise Unsupported(how)
    def touched(self,ks,k0,vs,cond,d):
        m=list(zip(ks,k0)); return EXISTS(list(vs),[cond,zsub(d,m)!=0]) if vs else zsub(d,m)!=0
    def need(self,goal,what):
        """side condition: becomes an obligation of the function under verification"""
        if z3.is_true(z3.simplify(goal)): return
        if self.side is not None: self.side.append((what,list(self.pcs()),goal))
        self.fact(goal)
    def memo(self,f,n):
        """evaluate once with symbolic keys, then substitute"""
        ks=[z3.FreshConst(V,"m") for _ in range(n)]; t=f(ks)
        if not n: return lambda kk:t
        return lambda kk:zsub(t,list(zip(ks,kk)))
    def rebuild(self,r,lp,new,keys):
        keys=list(keys)
        if isinstance(r,SetRec): g=new[lp]; return SetRec(lambda k:g(keys+list(k)),r.shape)
        if isinstance(r,DictRec):
            gd=new[lp+("dom",)]
            w0=r.val([z3.FreshConst(V,"d") for _ in range(r.shape)])
            if isinstance(w0,RECS): val=lambda k:self.rebuild(r.val(list(k)),lp+("val",),new,keys+list(k))
            elif lp+("val",) in new: gv=new[lp+("val",)]; val=lambda k:gv(keys+list(k))
            else: val=r.val
            return DictRec(lambda k:gd(keys+list(k)),val,r.shape)
        if isinstance(r,FunRec): g=new[lp]; return FunRec(lambda k:g(keys+list(k)),r.n,r.dims)
        if isinstance(r,ObjRec): return ObjRec(r.cls,{a:(self.rebuild(b,lp+(a,),new,keys) if isinstance(b,RECS) else (new[lp+(a,)](keys) if lp+(a,) in new else b)) for a,b in r.fields.items()})
        if isinstance(r,ListRec): return ListRec([Part((),TRUE,self.rebuild(p.val,lp+(i,),new,keys) if isinstance(p.val,RECS) else p.val) for i,p in enumerate(r.parts)])
        raise Unsupported("rebuild %r"%(r,))
    # ------------------------------------------------------------ expressions
    def eval(self,n,fr):
        m=getattr(self,"e_"+type(n).__name__,None)
        if m is None: raise Unsupported("expression %s"%type(n).__name__)
        return m(n,fr)
    def e_Constant(self,n,fr):
        if isinstance(n.value,(bytes,complex)) or n.value is Ellipsis: raise Unsupported("constant")
        return n.value
    def e_JoinedStr(self,n,fr): return Opaque()
    def e_Name(self,n,fr): return self.lookup(fr,n.id)
    def e_Tuple(self,n,fr):
        out=[]
        for x in n.elts:
            if isinstance(x,ast.Starred):
                s=self.seqof(self.eval(x.value,fr))
                if not s.concrete(): raise Unsupported("starred symbolic collection")
                out+=s.items()
            else: out.append(self.eval(x,fr))
        return Tup(out)
    def e_List(self,n,fr): return self.alloc(ListRec([Part((),TRUE,x) for x in self.e_Tuple(n,fr).items]))
    def e_Set(self,n,fr):
        o=self.alloc(SetRec(lambda k:FALSE))
        for x in n.elts: METHODS["set.add"](self,o,self.eval(x,fr))
        return o
    def e_Dict(self,n,fr):
        o=self.alloc(newdict())
        for k,v in zip(n.keys,n.values): self.store(o,self.eval(k,fr),self.eval(v,fr))
        return o
    def e_Attribute(self,n,fr): return self.getattr(self.eval(n.value,fr),n.attr)
    def e_Subscript(self,n,fr):
        v=self.eval(n.value,fr); return self.index(v,self.eval(n.slice,fr))
    def e_Index(self,n,fr): return self.eval(n.value,fr)
    def e_Slice(self,n,fr): return SliceV(*[self.eval(x,fr) if x is not None else None for x in (n.lower,n.upper,n.step)])
    def e_Lambda(self,n,fr): return LamVal(n,fr.fid,fr.module,fr)
    def e_IfExp(self,n,fr):
        c=self.cond(n.test,fr); c=z3.simplify(c) if isz(c) else c
        if type(c) is bool or z3.is_true(c) or z3.is_false(c): return self.eval(n.body if self.branch(c) else n.orelse,fr)
        try:
            return self.merged(lambda:self.eval(n.body if self.branch(c) else n.orelse,fr),"conditional expression")
        except Unsupported: return self.eval(n.body if self.branch(c) else n.orelse,fr)
    def e_BoolOp(self,n,fr):
        isand=isinstance(n.op,ast.And)
        acc=None   # formula of the operands so far
        for i,x in enumerate(n.values):
            if acc is None: v=self.eval(x,fr)
            else:
                guard=acc if isand else NOT(acc)
                c=z3.simplify(guard)
                if z3.is_false(c): return not isand
                v=None
                try:
                    def th():
                        self.assume(guard); return self.eval(x,fr)
                    m=self.merged_under(guard,th)
                    if isB(m) or type(m) is bool:
                        acc=AND(acc,tobool(m)) if isand else OR(acc,tobool(m)); continue
                except (Unsupported,Dead): pass
                if self.branch(guard): v=self.eval(x,fr); acc=None
                else: return not isand
            if i==len(n.values)-1 and acc is None: return v
            if isB(v) or type(v) is bool:
                if type(v) is bool:
                    if v!=isand: return v
                    acc=None if True else acc; continue
                acc=v; continue
            t=self.truth(v)
            if self.branch(t)!=isand: return v
        return acc if acc is not None else v
    def merged_under(self,guard,th):
        outs=self.explore(th); base=self.st
        if not outs: return False if False else TRUE
        r=None
        for o in outs:
            if o.kind!="ok": raise Unsupported("raising operand")
            if self.changed(base,o.st): raise Unsupported("operand with effects")
            if not (isB(o.val) or type(o.val) is bool): raise Unsupported("operand is no condition")
        for o in outs:
            for t in self.hoist(o,(),TRUE): self.fact(t)
        for o in reversed(outs):
            c=AND(*[t for t in o.conds() if not t.eq(guard)]); r=tobool(o.val) if r is None else ITE(c,tobool(o.val),r)
        return r
    def e_UnaryOp(self,n,fr):
        v=self.eval(n.operand,fr)
        if isinstance(n.op,ast.Not):
            t=self.truth(v); return (not t) if type(t) is bool else NOT(t)
        v=self.num(v)
        if isinstance(n.op,ast.USub): return -v
        if isinstance(n.op,ast.UAdd): return v
        raise Unsupported("operator")
    def e_BinOp(self,n,fr): return self.binop(n.op,self.eval(n.left,fr),self.eval(n.right,fr))
    def binop(self,op,a,b):
        if isinstance(op,ast.Mod) and (type(a) is str or isinstance(a,Opaque)): return Opaque()
        if isinstance(a,Opaque) or isinstance(b,Opaque): return Opaque()
        if isinstance(op,ast.Add):
            if isinstance(a,Tup) and isinstance(b,Tup): return Tup(a.items+b.items)
            if isinstance(a,Tup) or isinstance(b,Tup):
                o=b if isinstance(a,Tup) else a
                if isV(o):
                    for k in range(MAXT+1):
                        if self.must(TI[k](o)):
                            t=Tup([TA[k][i](o) for i in range(k)]); return Tup(a.items+t.items) if isinstance(a,Tup) else Tup(t.items+b.items)
                raise PyRaise("TypeError") if not isV(o) else Unsupported("tuple of unknown length")
            if type(a) is str and type(b) is str: return a+b
            if type(a) is str or type(b) is str: return Opaque()
            if isinstance(a,Ref) and isinstance(b,Ref):
                ra,rb=self.rec(a),self.rec(b)
                if isinstance(ra,ListRec) and isinstance(rb,ListRec): return self.alloc(ListRec(ra.parts+rb.parts,ra.hav or rb.hav))
        if isinstance(op,ast.Mult):
            if isinstance(a,Ref) and isinstance(self.rec(a),ListRec) and type(b) is int:
                r=self.rec(a); return self.alloc(ListRec(r.parts*b))
            if isinstance(a,Tup) and type(b) is int: return Tup(a.items*b)
        if isinstance(a,Ref) and isinstance(b,Ref) and isinstance(self.rec(a),SetRec) and isinstance(self.rec(b),SetRec):
            ra,rb=self.rec(a),self.rec(b)
            if ra.shape!=rb.shape: ra,rb=shape1(ra),shape1(rb)
            f={ast.Sub:lambda k:AND(ra.mem(k),NOT(rb.mem(k))),ast.BitOr:lambda k:OR(ra.mem(k),rb.mem(k)),ast.BitAnd:lambda k:AND(ra.mem(k),rb.mem(k))}.get(type(op))
            if f: return self.alloc(SetRec(f,ra.shape))
        x,y=self.num(a),self.num(b)
        if isnumlit(x) and isnumlit(y):
            try:
                if isinstance(op,ast.Add): return x+y
                if isinstance(op,ast.Sub): return x-y
                if isinstance(op,ast.Mult): return x*y
                if isinstance(op,ast.Div): return x/y
                if isinstance(op,ast.FloorDiv): return x//y
                if isinstance(op,ast.Mod): return x%y
                if isinstance(op,ast.Pow): return x**y
            except ZeroDivisionError: raise PyRaise("ZeroDivisionError")
        p,q=real(x),real(y)
        if isinstance(op,ast.Add): return p+q
        if isinstance(op,ast.Sub): return p-q
        if isinstance(op,ast.Mult): return p*q
        if isinstance(op,ast.Div):
            if not self.branch(q!=0): raise PyRaise("ZeroDivisionError")
            return p/q
        if isinstance(op,ast.Pow) and type(b) is int and 0<=b<=3:
            r=z3.RealVal(1)
            for _ in range(b): r=r*p
            return r
        if isinstance(op,ast.FloorDiv): 
            if not self.branch(q!=0): raise PyRaise("ZeroDivisionError")
            return z3.ToReal(z3.ToInt(p/q))
        if isinstance(op,ast.Pow): return POW(p,q)
        raise Unsupported("operator %s"%type(op).__name__)
    def e_Compare(self,n,fr):
        l=self.eval(n.left,fr); out=[]
        for op,r in zip(n.ops,n.comparators):
            r=self.eval(r,fr); c=self.compare(op,l,r)
            if type(c) is bool and not c: return False if not out else (AND(*out) if False else False)
            if not (type(c) is bool): out.append(c)
            l=r
        return AND(*out) if out else True
    def compare(self,op,a,b):
        if isinstance(a,tuple) and a and a[0]=="classof": a,b=b,a
        if isinstance(b,tuple) and b and b[0]=="classof":
            v=b[1]
            if isinstance(a,TypeVal):
                t={"tuple":isT(v),"str":V.is_str(v)}.get(a.name)
                if t is None: raise Unsupported("class of a value")
            elif isinstance(a,ClassInfo): t=FALSE
            else: raise Unsupported("class of a value")
            return t if isinstance(op,(ast.Eq,ast.Is)) else NOT(t)
        if isinstance(op,ast.Eq): return self.eq(a,b)
        if isinstance(op,ast.NotEq):
            e=self.eq(a,b); return (not e) if type(e) is bool else NOT(e)
        if isinstance(op,(ast.Is,ast.IsNot)):
            if a is None or b is None or isinstance(a,(TypeVal,ClassInfo)):
                e=self.eq(a,b)
            elif isinstance(a,Ref) and isinstance(b,Ref):
                x,y=self.norm(a),self.norm(b); e=x.oid==y.oid and x.path==y.path
            elif isB(a) or type(a) is bool: e=self.eq(a,b) if (isB(b) or type(b) is bool) else False
            else: raise Unsupported("identity of values")
            return e if isinstance(op,ast.Is) else ((not e) if type(e) is bool else NOT(e))
        if isinstance(op,ast.In): return self.contains(b,a)
        if isinstance(op,ast.NotIn):
            c=self.contains(b,a); return (not c) if type(c) is bool else NOT(c)
        if isname_(a) and isname_(b):
            self.order(); p,q=toV(a),toV(b); r=PYLT(p,q) if isinstance(op,(ast.Lt,ast.LtE)) else PYLT(q,p)
            return OR(r,EQ(p,q)) if isinstance(op,(ast.LtE,ast.GtE)) else r
        x,y=self.num(a),self.num(b)
        if isnumlit(x) and isnumlit(y): return {ast.Lt:x<y,ast.LtE:x<=y,ast.Gt:x>y,ast.GtE:x>=y}[type(op)]
        p,q=real(x),real(y)
        return {ast.Lt:p<q,ast.LtE:p<=q,ast.Gt:p>q,ast.GtE:p>=q}[type(op)]
    def e_Call(self,n,fr):
        if isinstance(n.func,ast.Name) and n.func.id=="super": raise Unsupported("super")
        if isinstance(n.func,ast.Attribute) and isinstance(n.func.value,ast.Call) and isinstance(n.func.value.func,ast.Name) and n.func.value.func.id=="super":
            cls=fr.info.cls; selfv=self.lookup(fr,fr.info.node.args.args[0].arg)
            for c in cls.mro()[1:]:
                if n.func.attr in c.methods:
                    a,k=self.args(n,fr); return self.call(c.methods[n.func.attr],[selfv]+a,k,selfv)
            raise Unsupported("super")
        f=self.eval(n.func,fr); a,k=self.args(n,fr)
        return self.callv(f,a,k)
    def args(self,n,fr):
        a=[]; kw={}
        for x in n.args:
            if isinstance(x,ast.Starred):
                s=self.seqof(self.eval(x.value,fr))
                if not s.concrete(): raise Unsupported("starred symbolic collection")
                a+=s.items()
            else: a.append(self.eval(x,fr))
        for k in n.keywords:
            if k.arg is None:
                v=self.eval(k.value,fr)
                if isinstance(v,HostDict): kw.update(v.d); continue
                r=self.rec(v)
                if isinstance(r,DictRec) and r.empty: continue
                raise Unsupported("**arguments")
            kw[k.arg]=self.eval(k.value,fr)
        return a,kw
    def comp(self,n,fr,emit):
        """comprehension: emit(frame) for every binding"""
        fid=next(self.count); f=Frame(fid,fr.info,fr,fr.module); self.st.env[fid]={}
        def level(i):
            if i==len(n.generators): emit(f); return
            g=n.generators[i]
            def b(x):
                self.assign(g.target,x,f)
                for c in g.ifs:
                    if not self.branch(self.cond(c,f)): return
                level(i+1)
            self.loop(self.eval(g.iter,f if i else fr),b,f)
        level(0)
    def e_ListComp(self,n,fr):
        o=self.alloc(ListRec()); self.comp(n,fr,lambda f:self.append(o,self.eval(n.elt,f))); return o
    def e_GeneratorExp(self,n,fr):
        o=self.alloc(ListRec()); self.comp(n,fr,lambda f:self.append(o,self.eval(n.elt,f))); return Seq(self.rec(o).parts)
    def e_SetComp(self,n,fr):
        o=self.alloc(SetRec(lambda k:FALSE)); self.comp(n,fr,lambda f:METHODS["set.add"](self,o,self.eval(n.elt,f))); return o
    def e_DictComp(self,n,fr):
        o=self.alloc(newdict()); self.comp(n,fr,lambda f:self.store(o,self.eval(n.key,f),self.eval(n.value,f))); return o
    def order(self):
        """the order of comparable names: total, agreeing with the order of numbers"""
        if not hasattr(self,"_order"):
            a,b,c=[z3.FreshConst(V,"o") for _ in range(3)]
            self._order=[FORALL([a,b],NOT(AND(PYLT(a,b),PYLT(b,a)))),FORALL([a,b],OR(PYLT(a,b),PYLT(b,a),a==b)),FORALL([a,b,c],IMP(AND(PYLT(a,b),PYLT(b,c)),PYLT(a,c))),
                FORALL([a,b],IMP(AND(V.is_num(a),V.is_num(b)),PYLT(a,b)==(V.nv(a)<V.nv(b))))]; self._lemmas={}
        if not any(t.eq(self._order[0]) for _,t in self.st.pc):
            for t in self._order: self.fact(t)
    def ranklemma(self,mem,key):
        """different elements of a set have different numbers of smaller elements (an obligation of its own, then a fact)"""
        self.order(); x,y,z=[z3.FreshConst(V,"r") for _ in range(3)]; rk=lambda v:SUM([z],AND(mem(z),PYLT(z,v)),z3.RealVal(1))
        g=FORALL([x,y],IMP(AND(mem(x),mem(y),rk(x)==rk(y)),x==y))
        if key not in self._lemmas:
            self._lemmas[key]=g
            if self.side is not None: self.side.append(("positions in sorted order are different",list(self._order),g))
        self.fact(self._lemmas[key])
    def mapseq(self,f,s):
        o=self.alloc(ListRec()); self.loop(s,lambda x:self.append(o,f(x)),None); return Seq(self.rec(o).parts)


POW=z3.Function("pow",R,R,R)
PYLT=z3.Function("pylt",V,V,B)
def isname_(x): return isV(x) and not x.decl().eq(V.num)
STRF=z3.Function("strof",V,V); UNSTR=z3.Function("unstr",V,V)
_pure={}
def pure_node(n):
    """a nested function without loops, calls of methods and assignments to anything but names"""
    if n not in _pure:
        _pure[n]=not any(isinstance(x,(ast.For,ast.While,ast.Try,ast.With,ast.Global,ast.Nonlocal,ast.Delete,ast.Yield,ast.YieldFrom,ast.Raise)) or (isinstance(x,(ast.Assign,ast.AugAssign)) and not all(isinstance(t,ast.Name) for t in (x.targets if isinstance(x,ast.Assign) else [x.target]))) for x in ast.walk(n)) and any(isinstance(x,(ast.If,ast.IfExp)) for x in ast.walk(n))
    return _pure[n]
def newrefs(v,st):
    if isinstance(v,Ref): return v.oid not in st.heap
    if isinstance(v,Tup): return any(newrefs(x,st) for x in v.items)
    if isinstance(v,Seq): return any(newrefs(p.val,st) for p in v.parts)
    return isinstance(v,(LamVal,FnVal))
class LazyVal(object):
    """values of a dictionary that is empty before the loop: their kind is not known yet"""
    def __init__(s,I,loc,lp,keys,havf,shape): s.__dict__.update(I=I,loc=loc,lp=lp,keys=list(keys),havf=havf,shape=shape,rec=None)
    def __call__(s,k):
        raise NeedShape(s)
class NeedShape(Unsupported): 
    def __init__(s,l): Unsupported.__init__(s,"reading a dictionary that was empty before the loop"); s.lazy=l
def newdict(): return DictRec(lambda k:FALSE,lambda k:NONE,1,True)
def addends(t):
    if z3.is_app(t) and t.decl().kind()==z3.Z3_OP_ADD: return sum([addends(c) for c in t.children()],[])
    if z3.is_rational_value(t) and t.as_fraction()==0: return []
    return [t]
def SUMITE(vs,g,t):
    """sum over vs of [g] t: linear in t, if-then-else terms become separate guards"""
    t=z3.simplify(t); z=z3.RealVal(0)
    if z3.is_app(t) and t.decl().kind()==z3.Z3_OP_ITE:
        a,b=addends(t.arg(1)),addends(t.arg(2)); common=[]
        for x in list(a):
            for y in b:
                if x.eq(y): common.append(x); a.remove(x); b.remove(y); break
        out=z
        for x in common: out=plus(out,SUMITE(vs,g,x))
        for x in a: out=plus(out,SUMITE(vs,AND(g,t.arg(0)),x))
        for x in b: out=plus(out,SUMITE(vs,AND(g,NOT(t.arg(0))),x))
        return out
    if z3.is_rational_value(t) and t.as_fraction()==0: return z
    ad=addends(t)
    if len(ad)>1:
        out=z
        for x in ad: out=plus(out,SUMITE(vs,g,x))
        return out
    return SUM(vs,g,t)
def plus(a,b):
    if z3.is_rational_value(a) and a.as_fraction()==0: return b
    return a+b
def nobuiltin(name):
    def f(*a,**k): raise Unsupported("builtin %s"%name)
    return f
# ---------------------------------------------------------------- builtins
def b_len(I,x): return I.length(x)
def b_range(I,*a): return range(*[I.hint(x) for x in a])
def ranks(I,x,s):
    """position of every element of a one-part symbolic collection"""
    if len(s.parts)!=1: raise Unsupported("positions in a mixed collection")
    p=s.parts[0]
    keep=isinstance(x,Ref) and not x.path and isinstance(I.rec(x),ListRec)
    if keep and I.rec(x).rank is not None: return I.rec(x).rank
    f=z3.Function(I.name("pos"),*([y.sort() for y in I.scope]+[V]*len(p.vars)+[R])); sc=list(I.scope); rk=lambda vs:f(*(sc+list(vs)))
    a,ca,_=p.inst(); b,cb,_=p.inst(); n=SUM(p.vars,p.cond,z3.RealVal(1))
    I.fact(FORALL(a+b,IMP(AND(ca,cb,rk(a)==rk(b)),eqc(a,b)))); I.fact(FORALL(a,IMP(ca,AND(rk(a)>=0,rk(a)<n,z3.IsInt(rk(a))))))
    if keep: r=I.rec(x); I.put(x,ListRec(r.parts,r.hav,rk))
    return rk
def b_enumerate(I,x,start=0):
    s=I.seqof(x)
    if not s.concrete():
        rk=ranks(I,x,s); p=s.parts[0]; st=real(start)
        return Seq([Part(p.vars,p.cond,Tup([rk(p.vars)+st,p.val]))])
    return seq([Tup([i+start,v]) for i,v in enumerate(s.items())])
def b_zip(I,*a):
    ss=[I.seqof(x) for x in a]
    if not all(s.concrete() for s in ss): raise Unsupported("zip over a symbolic collection")
    return seq([Tup(t) for t in zip(*[s.items() for s in ss])])
def b_reversed(I,x):
    s=I.seqof(x)
    if not s.concrete(): raise Unsupported("reversed")
    return seq(list(reversed(s.items())))
def b_map(I,f,x): return I.mapseq(lambda v:I.callv(f,[v]),x)
def b_filter(I,f,x):
    o=I.alloc(ListRec())
    def b(v):
        if I.branch(I.truth(I.callv(f,[v]) if f is not None else v)): I.append(o,v)
    I.loop(x,b,None); return Seq(I.rec(o).parts)
def b_all(I,x):
    s=I.seqof(x); return AND(*[FORALL(p.vars,IMP(p.cond,tobool(I.truth(p.val)))) for p in s.parts])
def b_any(I,x):
    s=I.seqof(x); return OR(*[EXISTS(p.vars,[p.cond,tobool(I.truth(p.val))]) for p in s.parts])
def b_sum(I,x,start=0):
    s=I.seqof(x); t=start
    sym=[]
    for p in s.parts:
        if p.concrete(): t=I.binop(ast.Add(),t,p.val)
        else: sym.append((p,I.numunder(p)))
    if sym: t=I.binop(ast.Add(),t,I.total(sym))
    return t
def numunder(I,p):
    if isV(p.val) and not p.val.decl().eq(V.num):
        if I.branch(EXISTS(p.vars,[p.cond,NOT(V.is_num(p.val))])): raise PyRaise("TypeError")
    return real(p.val)
Interp.numunder=numunder
def b_isinstance(I,x,t):
    ts=list(t.items) if isinstance(t,Tup) else [t]; out=[]
    for c in ts:
        if isinstance(c,ClassInfo):
            out.append(isinstance(x,Ref) and isinstance(I.rec(x),ObjRec) and I.rec(x).cls.issub(c))
        elif isinstance(c,TypeVal):
            n=c.name
            if isinstance(x,Ref):
                r=I.rec(x); out.append({"list":ListRec,"dict":DictRec,"set":SetRec}.get(n,type(None))==type(r))
            elif isinstance(x,Tup): out.append(n=="tuple")
            elif x is None: out.append(False)
            elif type(x) is str: out.append(n=="str")
            elif isB(x) or type(x) is bool: out.append(n in("bool","int"))
            elif isnumlit(x): out.append(n==type(x).__name__)
            elif isV(x):
                if n=="tuple": out.append(isT(x))
                elif n=="str": out.append(V.is_str(x))
                elif n in("list","dict","set"): out.append(False)
                else: raise Unsupported("type test %s"%n)
            elif isinstance(x,(FnVal,LamVal,Builtin)): out.append(False)
            else: raise Unsupported("type test")
        elif isinstance(c,ExtVal): out.append(False) if isinstance(x,Ref) else (_ for _ in ()).throw(Unsupported("type test"))
        else: raise Unsupported("type test")
    if any(o is True for o in out): return True
    o=[x for x in out if x is not False]
    return OR(*o) if o else False
def b_hasattr(I,x,a):
    try: I.getattr(x,a); return True
    except PyRaise: return False
def b_type(I,x):
    return I.getattr(x,"__class__")
def b_int(I,x=0):
    if isinstance(x,(Tup,Ref,Seq)) or x is None: raise PyRaise("TypeError")
    if isnumlit(x): return int(x)
    if type(x) is bool: return int(x)
    if isB(x): return real(x)
    v=real(I.num(x))
    return v if I.intlike(v) else z3.If(v>=0,z3.ToReal(z3.ToInt(v)),-z3.ToReal(z3.ToInt(-v)))
def intlike(I,v):
    v=z3.simplify(v)
    if z3.is_rational_value(v): return v.denominator_as_long()==1
    if is_sum(v): 
        d=SUMS[v.decl().name()]; return I.intlike(d.term)
    if z3.is_app(v) and v.decl().kind() in (z3.Z3_OP_ADD,z3.Z3_OP_SUB,z3.Z3_OP_MUL,z3.Z3_OP_UMINUS): return all(I.intlike(c) for c in v.children())
    if z3.is_app(v) and v.decl().kind()==z3.Z3_OP_ITE: return I.intlike(v.arg(1)) and I.intlike(v.arg(2))
    if z3.is_app(v) and v.decl().kind()==z3.Z3_OP_TO_REAL: return True
    return False
Interp.intlike=intlike
def hostbool(I,v):
    """host truth value"""
    if v is None or isinstance(v,(bool,int,float,str)): return bool(v)
    if isz(v):
        t=z3.simplify(tobool(I.truth(v)))
        if z3.is_true(t) or z3.is_false(t): return z3.is_true(t)
        if I.must(t): return True
        if I.must(NOT(t)): return False
    raise Unsupported("symbolic truth value of an option")
Interp.hostbool=hostbool
def b_float(I,x=0):
    if isnumlit(x): return float(x)
    return I.num(x)
def b_abs(I,x):
    v=I.num(x)
    if isnumlit(v): return abs(v)
    return z3.If(v>=0,v,-v)
def b_minmax(I,a,isx):
    s=I.seqof(a[0]) if len(a)==1 else seq(a)
    if s.concrete():
        it=[I.num(x) for x in s.items()]
        if not it: raise PyRaise("ValueError")
        r=it[0]
        for x in it[1:]:
            if isnumlit(r) and isnumlit(x): r=max(r,x) if isx else min(r,x)
            else: p,q=real(r),real(x); r=z3.If(q>p if isx else q<p,q,p)
        return r
    if not I.branch(OR(*[EXISTS(p.vars,[p.cond]) for p in s.parts])): raise PyRaise("ValueError")
    m=I.fresh("mx" if isx else "mn",R); hit=[]
    for p in s.parts:
        v=real(I.numunder(p)); I.fact(FORALL(p.vars,IMP(p.cond,(v<=m) if isx else (v>=m)))); hit.append(EXISTS(p.vars,[p.cond,v==m]))
    I.fact(OR(*hit)); return m
def b_sorted(I,x,key=None,reverse=False):
    s=I.seqof(x)
    if s.concrete() and len(s.parts)<2: return I.alloc(ListRec(s.parts))
    if s.concrete() or len(s.parts)!=1 or key is not None or I.hostbool(reverse):
        if s.concrete(): raise Unsupported("sorting values with unknown order")
        return I.alloc(ListRec(s.parts))
    p=s.parts[0]; I.order()
    if not isname_(p.val): return I.alloc(ListRec(p if isinstance(p,tuple) else (p,)))
    def rk(vs,p=p):
        b,cb,vb=p.inst(); m=list(zip(p.vars,vs)); return SUM(b,AND(cb,PYLT(vb,vsubst(p.val,m))),z3.RealVal(1))
    if len(p.vars)==1 and isV(p.val) and p.val.eq(p.vars[0]): I.ranklemma(lambda v,p=p:zsub(p.cond,[(p.vars[0],v)]),str(z3.simplify(zsub(p.cond,[(p.vars[0],z3.Const("key",V))]))))
    a,ca,_=p.inst(); I.fact(FORALL(a,IMP(ca,AND(rk(a)>=0,rk(a)<SUM(p.vars,p.cond,z3.RealVal(1)),z3.IsInt(rk(a))))))
    return I.alloc(ListRec((p,),False,rk))
def b_list(I,x=None):
    if x is None: return I.alloc(ListRec())
    return I.alloc(ListRec(I.seqof(x).parts))
def b_tuple(I,x=None):
    if x is None: return Tup([])
    s=I.seqof(x)
    if not s.concrete(): 
        o=I.alloc(ListRec(s.parts)); return o
    return Tup(s.items())
def b_set(I,x=None):
    o=I.alloc(SetRec(lambda k:FALSE))
    if x is None: return o
    if isinstance(x,Ref) and isinstance(I.rec(x),SetRec): return I.alloc(I.rec(x))
    if isinstance(x,Ref) and isinstance(I.rec(x),DictRec): r=I.rec(x); return I.alloc(SetRec(r.dom,r.shape))
    set_update(I,o,x); return o
def b_dict(I,x=None,**kw):
    o=I.alloc(newdict())
    if x is not None:
        if isinstance(x,Ref) and isinstance(I.rec(x),DictRec): I.st.heap[o.oid]=I.rec(x)
        else: I.loop(x,lambda p:I.store(o,I.index(p,0),I.index(p,1)),None)
    for k,v in kw.items(): I.store(o,k,v)
    return o
def b_str(I,x=""):
    if type(x) is str: return x
    if isinstance(x,Tup) or isV(x):
        try: t=toV(x)
        except Unsupported: return Opaque()
        a=z3.FreshConst(V,"s"); I.fact(FORALL([a],AND(UNSTR(STRF(a))==a,V.is_str(STRF(a)),STRF(a)!=V.str(z3.IntVal(strid("")))))); I.used.add("str() of distinct node-layers is distinct")
        return STRF(t)
    return Opaque()
def b_print(I,*a,**k): return None
def b_iter(I,x): return I.seqof(x)
def b_bool(I,x=False): return I.truth(x)
def b_callable(I,x): return isinstance(x,(FnVal,LamVal,Builtin,ClassInfo))
BUILTINS={"len":b_len,"range":b_range,"enumerate":b_enumerate,"zip":b_zip,"reversed":b_reversed,"map":b_map,"filter":b_filter,"all":b_all,"any":b_any,"sum":b_sum,
 "isinstance":b_isinstance,"hasattr":b_hasattr,"abs":b_abs,"max":lambda I,*a,**k:b_minmax(I,a,True) if not k else nobuiltin("max")(),"min":lambda I,*a,**k:b_minmax(I,a,False) if not k else nobuiltin("min")(),
 "sorted":b_sorted,"print":b_print,"iter":b_iter,"callable":b_callable,"repr":lambda I,x:Opaque()}
TYPES={"tuple":b_tuple,"list":b_list,"set":b_set,"frozenset":b_set,"dict":b_dict,"int":b_int,"float":b_float,"str":b_str,"bool":b_bool,"type":b_type,"slice":lambda I,*a:SliceV(*((None,a[0],None) if len(a)==1 else (a+(None,))[:3]))}
def set_add(I,s,x):
    r=I.rec(s); ok,k=comps(x,r.shape)
    if not z3.is_true(ok) and not I.must(ok): raise Unsupported("element of another shape")
    I.put(s,SetRec(lambda y:OR(eqc(y,k),r.mem(y)),r.shape))
def set_update(I,s,*xs):
    for x in xs:
        if isinstance(x,Ref) and isinstance(I.rec(x),SetRec):
            a,b=I.rec(s),I.rec(x)
            if a.shape!=b.shape: b=shape1(b)
            if a.shape!=b.shape: raise Unsupported("union of different shapes")
            I.put(s,SetRec(lambda k,a=a,b=b:OR(a.mem(k),b.mem(k)),a.shape))
        else:
            for p in I.seqof(x).parts:
                r=I.rec(s); ok,_=comps(p.val,r.shape)
                if not z3.is_true(ok): raise Unsupported("element of another shape")
                def mem(y,r=r,p=p):
                    vs,c,v=p.inst([z3.FreshConst(V,"u") for _ in p.vars]); _,k=comps(v,r.shape)
                    return OR(r.mem(y),EXISTS(vs,[c,eqc(y,k)]))
                I.put(s,SetRec(I.memo(mem,r.shape),r.shape))
def set_discard(I,s,x):
    r=I.rec(s); ok,k=comps(x,r.shape); I.put(s,SetRec(lambda y:AND(r.mem(y),NOT(AND(ok,eqc(y,k)))),r.shape))
def set_remove(I,s,x):
    if not I.branch(I.contains(s,x)): raise PyRaise("KeyError")
    set_discard(I,s,x)
def set_binary(f):
    def g(I,s,*xs):
        r=I.rec(s)
        for x in xs:
            o=I.rec(b_set(I,x))
            a,b=(r,o) if r.shape==o.shape else (shape1(r),shape1(o))
            r=SetRec(lambda k,a=a,b=b:f(a.mem(k),b.mem(k)),a.shape)
        return I.alloc(r)
    return g
def set_subset(I,s,x):
    a,b=I.rec(s),I.rec(b_set(I,x))
    if a.shape!=b.shape: a,b=shape1(a),shape1(b)
    k=[I.bound() for _ in range(a.shape)]; return FORALL(k,IMP(a.mem(k),b.mem(k)))
def set_inter_update(I,s,*xs):
    r=I.rec(set_binary(lambda a,b:AND(a,b))(I,s,*xs)); I.put(s,r)
def set_clear(I,s): r=I.rec(s); I.put(s,SetRec(lambda k:FALSE,r.shape))
def dict_get(I,d,k,default=None):
    r=I.rec(d); ok,c=comps(k,r.shape); g=AND(ok,r.dom(c))
    x=None
    if not r.empty:
        x=r.val(c)
        if not isinstance(x,RECS) and not isinstance(default,(Ref,Tup)) and not isinstance(x,Ref):
            g=z3.simplify(g)
            if z3.is_true(g): return x
            if z3.is_false(g): return default
            if isnum(x) and isnum(default): return merge(g,x,default)
    if I.branch(g): return I.dictval(d,r,c)
    return default
def dict_keys(I,d): return I.seqof(d)
def dict_items(I,d):
    r=I.rec(d)
    if r.empty: return Seq([])
    k=[I.bound() for _ in range(r.shape)]; x=I.dictval(d,r,k); return Seq([Part(k,r.dom(k),Tup([fromcomps(k,r.shape),x]))])
def dict_values(I,d):
    s=dict_items(I,d); return Seq([Part(p.vars,p.cond,p.val.items[1]) for p in s.parts])
def dict_setdefault(I,d,k,default=None):
    if not I.branch(I.contains(d,k)): I.store(d,k,default)
    r=I.rec(d); ok,c=comps(k,r.shape); return I.dictval(d,r,c)
def dict_pop(I,d,k,*default):
    if not I.branch(I.contains(d,k)):
        if default: return default[0]
        raise PyRaise("KeyError")
    v=I.index(d,k)
    if isinstance(v,Ref): raise Unsupported("pop of a container")
    I.delete(d,k); return v
def list_append(I,l,x): I.append(l,x)
def list_extend(I,l,x): I.extend(l,I.seqof(x))
def list_pop(I,l,i=-1):
    r=I.rec(l)
    if r.hav or not Seq(r.parts).concrete(): raise Unsupported("pop from a symbolic list")
    if not r.parts: raise PyRaise("IndexError")
    p=list(r.parts); x=p.pop(I.hint(i)).val; I.put(l,ListRec(p)); return x
def list_insert(I,l,i,x):
    r=I.rec(l); p=list(r.parts)
    if r.hav or not Seq(r.parts).concrete(): raise Unsupported("insert into a symbolic list")
    p.insert(I.hint(i),Part((),TRUE,x)); I.put(l,ListRec(p))
def list_sort(I,l,**k):
    r=I.rec(l)
    if Seq(r.parts).concrete() and len(r.parts)>1: raise Unsupported("sorting values with unknown order")
def list_index(I,l,x):
    raise Unsupported("list.index")
def list_copy(I,l): return I.alloc(I.rec(l))
METHODS={"hostdict.get":lambda I,d,k,default=None:d.d.get(k,default),"hostdict.keys":lambda I,d:seq(list(d.d)),"hostdict.items":lambda I,d:seq([Tup([k,v]) for k,v in d.d.items()]),"hostdict.values":lambda I,d:seq(list(d.d.values())),
 "hostdict.pop":lambda I,d,k,*df:d.d[k] if k in d.d else (df[0] if df else nobuiltin("pop")()),"set.add":set_add,"set.update":set_update,"set.discard":set_discard,"set.remove":set_remove,"set.union":set_binary(lambda a,b:OR(a,b)),"set.intersection":set_binary(lambda a,b:AND(a,b)),
 "set.difference":set_binary(lambda a,b:AND(a,NOT(b))),"set.issubset":set_subset,"set.issuperset":lambda I,s,x:set_subset(I,b_set(I,x),s),"set.copy":lambda I,s:I.alloc(I.rec(s)),"set.intersection_update":set_inter_update,"set.clear":set_clear,"set.__iter__":lambda I,s:I.seqof(s),
 "dict.get":dict_get,"dict.keys":dict_keys,"dict.items":dict_items,"dict.values":dict_values,"dict.setdefault":dict_setdefault,"dict.pop":dict_pop,"dict.__iter__":dict_keys,"dict.copy":lambda I,d:I.alloc(I.rec(d)),
 "dict.__contains__":lambda I,d,k:I.contains(d,k),"dict.__getitem__":lambda I,d,k:I.index(d,k),"dict.iteritems":dict_items,
 "list.append":list_append,"list.extend":list_extend,"list.pop":list_pop,"list.insert":list_insert,"list.sort":list_sort,"list.copy":list_copy,"list.__iter__":lambda I,s:I.seqof(s),
 "str.join":lambda I,*a:Opaque(),"str.format":lambda I,*a,**k:Opaque()}
def x_product(I,*a,**kw):
    ss=[I.seqof(x) for x in a]
    if "repeat" in kw: ss=ss*I.hint(kw["repeat"])
    parts=[Part((),TRUE,Tup([]))]
    for s in ss:
        new=[]
        for p in parts:
            for q in s.parts:
                vs,c,v=q.inst([z3.FreshConst(V,"x") for _ in q.vars]); new.append(Part(p.vars+tuple(vs),AND(p.cond,c),Tup(p.val.items+(v,))))
        parts=new
    return Seq(parts)
def x_chain(I,*a): return Seq(sum([list(I.seqof(x).parts) for x in a],[]))
def x_chainfrom(I,x): return x_chain(I,*I.seqof(x).items())
def x_combinations(I,x,r):
    s=I.seqof(x)
    if s.concrete(): return seq([Tup(t) for t in itertools.combinations(s.items(),I.hint(r))])
    r=I.hint(r)
    if r==1: return Seq([Part(p.vars,p.cond,Tup([p.val])) for p in s.parts])
    if r!=2 or len(s.parts)!=1: raise Unsupported("combinations")
    # every unordered pair of different positions once: oriented by an unknown order of the elements
    p=s.parts[0]; f=z3.Function("order!"+I.name("o"),*([y.sort() for y in I.scope]+[V]*(2*len(p.vars))+[B])); sc=list(I.scope)
    a,ca,va=p.inst(); b,cb,vb=p.inst(); lt=lambda x,y:f(*(sc+list(x)+list(y)))
    I.fact(FORALL(a+b,NOT(AND(lt(a,b),lt(b,a))))); I.fact(FORALL(a+b,IMP(AND(ca,cb,NOT(eqc(a,b))),OR(lt(a,b),lt(b,a)))))
    return Seq([Part(tuple(a)+tuple(b),AND(ca,cb,lt(a,b)),Tup([va,vb]))])
def x_reduce(I,f,x,*init):
    s=I.seqof(x)
    if not s.concrete(): raise Unsupported("reduce over a symbolic collection")
    it=list(init)+s.items()
    if not it: raise PyRaise("TypeError")
    r=it[0]
    for y in it[1:]: r=I.callv(f,[r,y])
    return r
def x_floor(I,x):
    if isnumlit(x): return math.floor(x)
    return z3.ToReal(z3.ToInt(real(I.num(x))))
def x_host(f):
    def g(I,*a):
        if all(isnumlit(x) for x in a): return f(*a)
        raise Unsupported("math function of a symbolic number")
    return g
def np_zeros(I,shape,dtype=None):
    n=[real(I.num(x)) for x in I.seqof(shape).items()]
    return I.alloc(FunRec(lambda k:V.num(z3.RealVal(0)),len(n),tuple(n)))
def np_matrix(I,x): return I.alloc(I.rec(x))
EXTS={"numpy.zeros":np_zeros,"numpy.matrix":np_matrix,"itertools.product":x_product,"itertools.chain":x_chain,"itertools.chain.from_iterable":x_chainfrom,"itertools.combinations":x_combinations,"math.floor":x_floor,"math.sqrt":x_host(math.sqrt),"math.ceil":x_host(math.ceil),
 "functools.reduce":x_reduce,"copy.deepcopy":None,"collections.defaultdict":None,"collections.OrderedDict":lambda I,*a:b_dict(I,*a)}
EXTS={k:v for k,v in EXTS.items() if v}
