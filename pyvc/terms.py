"""Terms, values and records of the symbolic state."""
import z3
MAXT=11
_d=z3.Datatype("V")
_d.declare("none"); _d.declare("colon"); _d.declare("num",("nv",z3.RealSort())); _d.declare("str",("sv",z3.IntSort())); _d.declare("obj",("ov",z3.IntSort()))
for _n in range(MAXT+1): _d.declare("T%d"%_n,*[("t%d_%d"%(_n,_i),_d) for _i in range(_n)])
V=_d.create()
TC=[getattr(V,"T%d"%n) for n in range(MAXT+1)]
TI=[getattr(V,"is_T%d"%n) for n in range(MAXT+1)]
TA=[[getattr(V,"t%d_%d"%(n,i)) for i in range(n)] for n in range(MAXT+1)]
NONE=V.none; COLON=V.colon
R=z3.RealSort(); B=z3.BoolSort()

class Unsupported(Exception): pass
class Tup(object):
    __slots__=("items",)
    def __init__(s,items): s.items=tuple(items)
    def __repr__(s): return "Tup%r"%(s.items,)
class SliceV(object):
    def __init__(s,a,b,c): s.a,s.b,s.c=a,b,c
class Undef(object):
    def __repr__(s): return "UNDEF"
UNDEF=Undef()
class Poison(object):
    def __init__(s,why): s.why=why
class Ref(object):
    """reference to a mutable object: heap cell plus path of dictionary keys / fields"""
    __slots__=("oid","path")
    def __init__(s,oid,path=()): s.oid=oid; s.path=path
    def __repr__(s): return "Ref(%s%s)"%(s.oid,"".join("[%s]"%(p,) for p in s.path))
class MovedRec(object):
    def __init__(s,ref): s.ref=ref

_strs={}
def strid(x): return _strs.setdefault(x,len(_strs))
def isz(x): return isinstance(x,z3.ExprRef)
def issort(x,s): return isinstance(x,z3.ExprRef) and x.sort()==s
def isV(x): return issort(x,V)
def isR(x): return issort(x,R)
def isB(x): return issort(x,B)
def isnumlit(x): return type(x) in (int,float)
def real(x):
    if isnumlit(x):
        if x!=x or x in (float("inf"),float("-inf")): raise Unsupported("non-finite number")
        from fractions import Fraction
        f=Fraction(x); return z3.Q(f.numerator,f.denominator) if f.denominator!=1 else z3.RealVal(f.numerator)
    if type(x) is bool: return z3.RealVal(int(x))
    if isR(x): return x
    if isV(x):
        if x.decl().eq(V.num): return x.arg(0)
        return V.nv(x)
    if isB(x): return z3.If(x,z3.RealVal(1),z3.RealVal(0))
    if z3.is_int(x): return z3.ToReal(x)
    raise Unsupported("number expected, got %r"%(x,))
def toV(x):
    if isz(x):
        if x.sort()==V: return x
        if x.sort()==R:
            return V.num(x)
        if x.sort()==B: return V.num(z3.If(x,z3.RealVal(1),z3.RealVal(0)))
    if x is None: return NONE
    if type(x) is bool or isnumlit(x): return V.num(real(x))
    if type(x) is str: return V.str(z3.IntVal(strid(x)))
    if isinstance(x,Tup):
        if len(x.items)>MAXT: raise Unsupported("long tuple")
        return TC[len(x.items)](*[toV(i) for i in x.items]) if x.items else V.T0
    if isinstance(x,SliceV):
        if x.a is None and x.b is None and x.c is None: return COLON
    raise Unsupported("not a hashable value: %r"%(x,))
def AND(*a):
    l=[]
    for x in a:
        if isinstance(x,(list,tuple)): l.extend(x)
        else: l.append(x)
    l=[z3.BoolVal(x) if type(x) is bool else x for x in l]
    l=[x for x in l if not z3.is_true(x)]
    if any(z3.is_false(x) for x in l): return z3.BoolVal(False)
    return z3.BoolVal(True) if not l else (l[0] if len(l)==1 else z3.And(*l))
def OR(*a):
    l=[]
    for x in a:
        if isinstance(x,(list,tuple)): l.extend(x)
        else: l.append(x)
    l=[z3.BoolVal(x) if type(x) is bool else x for x in l]
    l=[x for x in l if not z3.is_false(x)]
    if any(z3.is_true(x) for x in l): return z3.BoolVal(True)
    return z3.BoolVal(False) if not l else (l[0] if len(l)==1 else z3.Or(*l))
def NOT(x):
    if type(x) is bool: return z3.BoolVal(not x)
    return z3.BoolVal(False) if z3.is_true(x) else z3.BoolVal(True) if z3.is_false(x) else (x.arg(0) if z3.is_not(x) else z3.Not(x))
def IMP(a,b): return OR(NOT(a),b)
def EQ(a,b):
    if a.eq(b): return z3.BoolVal(True)
    return z3.simplify(a==b) if (a.sort()==V) else a==b
def ITE(c,a,b):
    if type(c) is bool: return a if c else b
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if a.eq(b): return a
    return z3.If(c,a,b)
def consts(t,acc=None,seen=None):
    """uninterpreted constants (arity 0) of a term"""
    acc={} if acc is None else acc; seen=set() if seen is None else seen
    st=[t]
    while st:
        x=st.pop(); i=x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_app(x):
            if x.num_args()==0 and x.decl().kind()==z3.Z3_OP_UNINTERPRETED: acc[x.decl().name()]=x
            st.extend(x.children())
    return acc
def funs(t,acc=None,seen=None):
    """uninterpreted function declarations (arity>0 or constants) by name"""
    acc={} if acc is None else acc; seen=set() if seen is None else seen
    st=[t]
    while st:
        x=st.pop(); i=x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_app(x):
            if x.decl().kind()==z3.Z3_OP_UNINTERPRETED: acc[x.decl().name()]=x.decl()
            st.extend(x.children())
    return acc
def apps(t,pred,acc,seen):
    st=[t]
    while st:
        x=st.pop(); i=x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_app(x):
            if pred(x): acc[i]=x
            st.extend(x.children())
    return acc
def conj(t):
    if z3.is_and(t):
        r=[]
        for c in t.children(): r+=conj(c)
        return r
    if z3.is_true(t): return []
    return [t]
def contains(t,names):
    return any(n in names for n in consts(t))
def is_tctor(t):
    return z3.is_app(t) and t.decl().kind()==z3.Z3_OP_DT_CONSTRUCTOR and t.decl().name()[0]=="T" and t.decl().name()[1:].isdigit()

def solve_points(vs,cs):
    """one-point rule. vs: constants to eliminate, cs: conjuncts. returns (remaining vars, conjuncts, substitution)"""
    vs=list(vs); cs=list(cs); sub=[]
    changed=True
    while changed and vs:
        changed=False
        names=set(v.decl().name() for v in vs)
        for i,c in enumerate(cs):
            if not z3.is_eq(c): continue
            a,b=c.arg(0),c.arg(1)
            for l,r in ((a,b),(b,a)):
                if z3.is_app(l) and l.num_args()==0 and l.decl().name() in names and not contains(r,{l.decl().name()}):
                    cs.pop(i); sub=[(x,z3.substitute(t,(l,r))) for x,t in sub]+[(l,r)]
                    cs=sum([conj(z3.substitute(x,(l,r))) for x in cs],[])
                    vs=[v for v in vs if not v.eq(l)]; changed=True; break
                if is_tctor(l) and contains(l,names):
                    n=int(l.decl().name()[1:])
                    if is_tctor(r):
                        if r.decl().eq(l.decl()): new=[l.arg(j)==r.arg(j) for j in range(n)]
                        else: new=[z3.BoolVal(False)]
                    elif not contains(r,names): new=[TI[n](r)]+[l.arg(j)==TA[n][j](r) for j in range(n)]
                    else: continue
                    cs[i:i+1]=new; changed=True; break
                if z3.is_app(l) and l.decl().eq(V.num) and contains(l,names) and z3.is_app(r) and r.decl().eq(V.num):
                    cs[i:i+1]=[l.arg(0)==r.arg(0)]; changed=True; break
            if changed: break
    return vs,cs,sub
def EXISTS(vs,cs):
    cs=sum([conj(c) for c in cs],[])
    vs,cs,_=solve_points(vs,cs)
    body=AND(*cs)
    body=z3.simplify(body) if vs else body
    if z3.is_true(body) or z3.is_false(body): return body
    used=consts(body); vs=[v for v in vs if v.decl().name() in used]   # V is not empty
    if not vs: return body
    if z3.is_or(body): return OR(*[EXISTS(vs,[c]) for c in body.children()])
    names=set(v.decl().name() for v in vs)
    cs=conj(body); inn=[c for c in cs if contains(c,names)]; out=[c for c in cs if not contains(c,names)]
    return AND(*out,z3.Exists(vs,AND(*inn)))
def FORALL(vs,body):
    body=z3.BoolVal(body) if type(body) is bool else body
    if z3.is_true(body): return body
    used=consts(body); vs=[v for v in vs if v.decl().name() in used]
    return z3.ForAll(vs,body) if vs else body

# ------------------------------------------------------------------ sums
class SumDef(object):
    def __init__(s,fn,params,bound,guard,term): s.fn,s.params,s.bound,s.guard,s.term=fn,params,bound,guard,term
    def body(s,args,vs):
        m=[(p,a) for p,a in zip(s.params,args)]+[(b,v) for b,v in zip(s.bound,vs)]
        return z3.If(z3.substitute(s.guard,*m),z3.substitute(s.term,*m),z3.RealVal(0)) if m else z3.If(s.guard,s.term,z3.RealVal(0))
    def parts(s,args,vs):
        m=[(p,a) for p,a in zip(s.params,args)]+[(b,v) for b,v in zip(s.bound,vs)]
        return (z3.substitute(s.guard,*m),z3.substitute(s.term,*m)) if m else (s.guard,s.term)
SUMS={}       # name -> SumDef
_sumkeys={}
def is_sum(t): return z3.is_app(t) and t.decl().kind()==z3.Z3_OP_UNINTERPRETED and t.decl().name() in SUMS
def nnf(t,pos=True):
    """negations moved to the atoms"""
    if z3.is_not(t): return nnf(t.arg(0),not pos)
    if z3.is_implies(t): return nnf(z3.Or(z3.Not(t.arg(0)),t.arg(1)),pos)
    if z3.is_and(t) or z3.is_or(t):
        ch=[nnf(c,pos) for c in t.children()]
        return z3.And(*ch) if z3.is_and(t)==pos else z3.Or(*ch)
    return t if pos else z3.Not(t)
def iszero(t): return z3.is_rational_value(t) and t.as_fraction()==0
def nvpush(t):
    """the number of a value, moved into the branches of the value"""
    if z3.is_app(t) and t.decl().eq(V.num): return t.arg(0)
    if z3.is_app(t) and t.decl().kind()==z3.Z3_OP_ITE: return z3.If(t.arg(0),nvpush(t.arg(1)),nvpush(t.arg(2)))
    return V.nv(t)
_dp={}
def depth(t):
    i=t.get_id()
    if i not in _dp: _dp[i]=(t,1+max([depth(c) for c in (t.children() if z3.is_app(t) else [t.body()] if z3.is_quantifier(t) else [])]+[0]))
    return _dp[i][1]
def groundparts(ts,names):
    """the largest parts of sort value or number that do not depend on the given variables, in the order of their first occurrence"""
    out=[]; info={}; seen=set()
    def ground(x):
        """(free of the variables, mentions a constant)"""
        i=x.get_id()
        if i in info: return info[i][1]
        if z3.is_var(x): r=(False,False)
        elif z3.is_quantifier(x): b=ground(x.body()); r=(False,b[1])
        elif x.num_args()==0:
            if x.decl().kind()==z3.Z3_OP_UNINTERPRETED: r=(x.decl().name() not in names,True)
            else: r=(True,False)
        else:
            q=[ground(c) for c in x.children()]; r=(all(a for a,_ in q),any(b for _,b in q))
        info[i]=(x,r); return r
    def go(x):
        i=x.get_id()
        if i in seen: return
        seen.add(i)
        if z3.is_quantifier(x): go(x.body()); return
        if not z3.is_app(x): return
        f,c=ground(x)
        if f and c and x.sort().kind() in (z3.Z3_REAL_SORT,z3.Z3_DATATYPE_SORT,z3.Z3_INT_SORT,z3.Z3_UNINTERPRETED_SORT): out.append(x); return
        for y in x.children(): go(y)
    for t in ts: go(t)
    return out
def SUM(vs,guard,term):
    """sum over all values of vs satisfying guard (finitely many non-zero terms)"""
    guard=z3.BoolVal(guard) if type(guard) is bool else guard
    term=real(term)
    vs=list(vs)
    # flatten  sum_x [g] (sum_y [h] t)   and   sum_x [g] (t if c else 0)
    while True:
        if is_sum(term):
            d=SUMS[term.decl().name()]; nv=[z3.FreshConst(V,"f") for _ in d.bound]
            g,t=d.parts(term.children(),nv); guard=AND(guard,g); term=t; vs+=nv
        elif z3.is_app(term) and term.decl().kind()==z3.Z3_OP_ITE and iszero(term.arg(1)): guard=AND(guard,z3.simplify(NOT(term.arg(0)))); term=term.arg(2)
        elif z3.is_app(term) and term.decl().kind()==z3.Z3_OP_ITE and iszero(term.arg(2)): guard=AND(guard,term.arg(0)); term=term.arg(1)
        else: break
    vs,cs,sub=solve_points(vs,sum([conj(c) for c in conj(nnf(guard))],[]))
    guard=z3.simplify(AND(*cs)) if cs else z3.BoolVal(True)
    if sub: term=z3.substitute(term,*sub)
    if z3.is_false(guard): return z3.RealVal(0)
    if not vs: return z3.If(guard,term,z3.RealVal(0)) if not z3.is_true(guard) else term
    names=set(v.decl().name() for v in vs)
    if not z3.is_rational_value(z3.simplify(term)) and not contains(term,names): return term*SUM(vs,guard,z3.RealVal(1))
    outer=[c for c in conj(guard) if not contains(c,names)]
    if outer:
        inner=AND(*[c for c in conj(guard) if contains(c,names)])
        return z3.If(AND(*outer),SUM(vs,inner,term),z3.RealVal(0))
    params=groundparts([guard,term],names)
    cb=[z3.Const("bv!%d"%i,v.sort()) for i,v in enumerate(vs)]; cp=[z3.Const("pv!%d"%i,p.sort()) for i,p in enumerate(params)]
    m=list(zip(vs,cb)); big=sorted(range(len(params)),key=lambda i:-depth(params[i]))
    g,t=guard,term
    for i in big: g,t=z3.substitute(g,(params[i],cp[i])),z3.substitute(t,(params[i],cp[i]))
    g,t=z3.substitute(g,*m),z3.substitute(t,*m)
    key=(g.sexpr(),t.sexpr(),tuple(str(p.sort()) for p in params),len(vs))
    if key not in _sumkeys:
        name="SUM!%d"%len(SUMS)
        fn=z3.Function(name,*([p.sort() for p in params]+[R])) if params else z3.Const(name,R).decl()
        SUMS[name]=SumDef(fn,cp,cb,g,t); _sumkeys[key]=fn
    return _sumkeys[key](*params)
def subst_funs(t,m):
    """m: {name: (decl, fn(args)->term)}; replaces applications, also inside definitions of sums"""
    if not m: return t
    cache={}
    def go(x):
        i=x.get_id()
        if i in cache: return cache[i][1]
        if z3.is_quantifier(x):
            if not any(n in m for n in deepfuns(x)): r=x
            else:
                vs=[z3.FreshConst(x.var_sort(j),"q") for j in range(x.num_vars())]
                b=go(z3.substitute_vars(x.body(),*reversed(vs)))
                r=z3.ForAll(vs,b) if x.is_forall() else z3.Exists(vs,b) if x.is_exists() else z3.Lambda(vs,b)
        elif z3.is_app(x):
            ch=[go(c) for c in x.children()]
            n=x.decl().name()
            if x.decl().kind()==z3.Z3_OP_UNINTERPRETED and n in m: r=(m[n][1] if isinstance(m[n],tuple) else m[n])(*ch)
            elif is_sum(x) and any(k in m for k in deepfuns(x)):
                d=SUMS[n]; nv=[z3.FreshConst(b.sort(),"f") for b in d.bound]
                g,tt=d.parts(ch,nv); r=SUM(nv,go(g),go(tt))
            elif ch and any(not a.eq(b) for a,b in zip(ch,x.children())): r=x.decl()(*ch) if x.decl().kind() not in (z3.Z3_OP_AND,z3.Z3_OP_OR) else (z3.And(*ch) if z3.is_and(x) else z3.Or(*ch))
            else: r=x
        else: r=x
        cache[i]=(x,r); return r
    return go(t)
_df={}
def deepfuns(t):
    """names of uninterpreted symbols, looking through sum definitions"""
    i=t.get_id()
    if i in _df: return _df[i][1]
    f=set(funs(t)); todo=[n for n in f if n in SUMS]; done=set()
    while todo:
        n=todo.pop()
        if n in done: continue
        done.add(n); d=SUMS[n]
        for g in (d.guard,d.term):
            for k in funs(g):
                f.add(k)
                if k in SUMS: todo.append(k)
    _df[i]=(t,f); return f
