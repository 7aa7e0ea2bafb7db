"""Obligations and their discharge."""
import time,itertools
import z3
from terms import *
from engine import sat,TRUE,FALSE,STATS,FORALL,PYLT
class Obl(object):
    def __init__(s,name,hyps,goal,rep=False): s.name,s.hyps,s.goal,s.rep=name,hyps,goal,rep; s.status=None; s.model=None; s.t=0; s.by=None
def sums_in(ts):
    acc={}
    for t in ts: apps(t,is_sum,acc,set())
    return list(acc.values())
def check(hyps,goal,timeout,model=False,full=True):
    """full=False: instantiation by matching only (fast; 'unknown' instead of 'refuted')"""
    if z3.is_true(goal): return "proved",None
    for mode,seed in ((0,0),(1,0),(0,7),(0,23),(0,101)) if full else ((0,0),):
        s=z3.Solver(); s.set("timeout",timeout if mode else (min(timeout,1500) if not seed else 3000))
        if not mode: s.set("mbqi",False); s.set("auto_config",False)
        if seed: s.set("random_seed",seed)
        s.add(*hyps); s.add(NOT(goal))
        t=time.time(); r=s.check(); STATS.q+=1; STATS.t+=time.time()-t
        if r==z3.unsat: return "proved",None
        if r==z3.sat: return "refuted",str(s.model())[:2000]
    return "unknown",None
def flat(t):
    out=[]
    for c in conj(t):
        out.append(c)
    return out
def skolem(goal,acc):
    """strip universal quantifiers and implications: (hyps, goal)"""
    h=[]
    while True:
        if z3.is_quantifier(goal) and goal.is_forall():
            vs=[z3.FreshConst(goal.var_sort(j),"sk") for j in range(goal.num_vars())]; goal=z3.substitute_vars(goal.body(),*reversed(vs)); acc+=vs; continue
        if z3.is_implies(goal): h.append(goal.arg(0)); goal=goal.arg(1); continue
        if z3.is_or(goal):
            n=[c for c in goal.children() if z3.is_not(c)]; p=[c for c in goal.children() if not z3.is_not(c)]
            if n and len(p)<=1: h+=[c.arg(0) for c in n]; goal=p[0] if p else FALSE; continue
            q=[c for c in goal.children() if sums_in([c])]
            if len(q)==1 and goal.num_args()>1: h+=[NOT(c) for c in goal.children() if not c.eq(q[0])]; goal=q[0]; continue
        return h,goal
def split(goal,hyps=()):
    """conjuncts with their own hypotheses"""
    out=[]
    h,g=skolem(goal,[]); hy=list(hyps)+h
    if z3.is_and(g):
        for c in g.children(): out+=split(c,hy)
        return out
    if z3.is_eq(g) and g.arg(0).sort()==B and (z3.is_quantifier(g.arg(0)) or z3.is_quantifier(g.arg(1)) or z3.is_or(g.arg(0)) or z3.is_or(g.arg(1)) or True) and not (z3.is_true(g.arg(0)) or z3.is_true(g.arg(1))):
        a,b=g.arg(0),g.arg(1)
        return split(b,hy+[a])+split(a,hy+[b])
    return [(hy,g)]
_pw={}
def canon_perms(d):
    n=len(d.bound); h=n//2; first=[tuple(range(n))]
    if n>1: first.append(tuple(list(range(h,n))+list(range(h))))
    if n<=4: return first+[p for p in itertools.permutations(range(n)) if p not in first]
    return first
def intlike_sum(a):
    t=z3.simplify(SUMS[a.decl().name()].term); return z3.is_rational_value(t) and t.denominator_as_long()==1
class SumCtx(object):
    def __init__(s,hyps,timeout): s.hyps,s.timeout=hyps,timeout; s.done={}
    def pointwise(s,a,b):
        """prove the sums equal term by term, for some renaming of the variables"""
        k=(a.get_id(),b.get_id())
        if k in s.done: return s.done[k]
        da,db=SUMS[a.decl().name()],SUMS[b.decl().name()]; r=False
        if len(da.bound)==len(db.bound) and [x.sort() for x in da.bound]==[x.sort() for x in db.bound]:
            vs=[z3.FreshConst(x.sort(),"s") for x in da.bound]; ga,ta=da.parts(a.children(),vs)
            for p in canon_perms(db):
                gb,tb=db.parts(b.children(),[vs[i] for i in p])
                if check(s.hyps,AND(ga==gb,IMP(ga,ta==tb)),s.timeout,full=False)[0]=="proved": r=True; break
        s.done[k]=r; return r
    def body(s,a,vs):
        d=SUMS[a.decl().name()]; g,t=d.parts(a.children(),vs); return z3.If(g,t,z3.RealVal(0))
    def nozero(s,a):
        """a sum of numbers >= 0 is 0 only if all of them are"""
        d=SUMS[a.decl().name()]; vs=[z3.FreshConst(x.sort(),"s") for x in d.bound]; g,t=d.parts(a.children(),vs)
        return [IMP(a<=0,FORALL(vs,IMP(g,t==0)))]
    def mono(s,a,b):
        """term by term a <= b: the sums are ordered, and equal only if all terms are"""
        da,db=SUMS[a.decl().name()],SUMS[b.decl().name()]
        if len(da.bound)!=len(db.bound): return []
        vs=[z3.FreshConst(x.sort(),"s") for x in da.bound]; x,y=s.body(a,vs),s.body(b,vs)
        if check(s.hyps,x<=y,s.timeout,full=False)[0]!="proved": return []
        ga,ta=da.parts(a.children(),vs); gb,tb=db.parts(b.children(),vs)
        same=ga==gb if z3.simplify(ta).eq(z3.simplify(tb)) and z3.is_rational_value(z3.simplify(ta)) and z3.simplify(ta).as_fraction()!=0 else x==y
        return [a<=b,IMP(a>=b,FORALL(vs,same))]
    def zero(s,a):
        d=SUMS[a.decl().name()]; vs=[z3.FreshConst(x.sort(),"s") for x in d.bound]; g,t=d.parts(a.children(),vs)
        return check(s.hyps,IMP(g,t==0),s.timeout,full=False)[0]=="proved"
    def support(s,a,pts):
        """sums whose terms vanish outside of the given points"""
        d=SUMS[a.decl().name()]; vs=[z3.FreshConst(x.sort(),"s") for x in d.bound]; g,t=d.parts(a.children(),vs); n=len(vs)
        for m in range(1,3):
            for ps in itertools.combinations(pts,m):
                if any(len(p)!=n for p in ps): continue
                other=[NOT(AND(*[v==x for v,x in zip(vs,p)])) for p in ps]
                if check(s.hyps+other,IMP(g,t==0),s.timeout,full=False)[0]=="proved":
                    e=z3.RealVal(0); prev=[]
                    for p in ps:
                        new=AND(*[NOT(AND(*[x==y for x,y in zip(p,q)])) for q in prev]) if prev else TRUE
                        gg,tt=d.parts(a.children(),list(p)); e=e+z3.If(AND(new,gg),tt,z3.RealVal(0)); prev.append(p)
                    return a==e
        return None
    def nonneg(s,a):
        d=SUMS[a.decl().name()]; vs=[z3.FreshConst(x.sort(),"s") for x in d.bound]; g,t=d.parts(a.children(),vs)
        if z3.is_rational_value(z3.simplify(t)): return z3.simplify(t).as_fraction()>=0
        return False
    def union(s,a,b,c):
        """c = a + b term by term"""
        da,db,dc=[SUMS[x.decl().name()] for x in (a,b,c)]
        if len(da.bound)!=len(dc.bound): return False
        def body(d,x,p): g,t=d.parts(x.children(),p); return z3.If(g,t,z3.RealVal(0))
        vs=[z3.FreshConst(x.sort(),"s") for x in da.bound]; nb=len(db.bound)
        if nb!=len(vs):
            if 2*nb!=len(vs): return False
            def diag(p): g,t=db.parts(b.children(),p[:nb]); return z3.If(AND(g,*[x==y for x,y in zip(p[:nb],p[nb:])]),t,z3.RealVal(0))
            return any(check(s.hyps,body(dc,c,[vs[i] for i in pc])==body(da,a,vs)+diag(vs),s.timeout,full=False)[0]=="proved" for pc in canon_perms(dc)[:6])
        for pb in canon_perms(db)[:6]:
            for pc in canon_perms(dc)[:6]:
                if check(s.hyps,body(dc,c,[vs[i] for i in pc])==body(da,a,vs)+body(db,b,[vs[i] for i in pb]),s.timeout,full=False)[0]=="proved": return True
        return False
    def update(s,a,b,pts):
        """sums that agree except at the given points: fact a - sum of a's terms there == b - the same"""
        da,db=SUMS[a.decl().name()],SUMS[b.decl().name()]
        if len(da.bound)!=len(db.bound): return None
        vs=[z3.FreshConst(x.sort(),"s") for x in da.bound]; ga,ta=da.parts(a.children(),vs); gb,tb=db.parts(b.children(),vs)
        n=len(vs)
        for m in range(1,3):
            for ps in itertools.combinations(pts,m):
                if any(len(p)!=n for p in ps): continue
                other=[NOT(AND(*[v==x for v,x in zip(vs,p)])) for p in ps]
                if check(s.hyps+other,z3.If(ga,ta,z3.RealVal(0))==z3.If(gb,tb,z3.RealVal(0)),s.timeout,full=False)[0]=="proved":
                    def at(d,x,p): g,t=d.parts(x.children(),list(p)); return z3.If(g,t,z3.RealVal(0))
                    ea=eb=z3.RealVal(0); prev=[]
                    for p in ps:
                        new=AND(*[NOT(AND(*[x==y for x,y in zip(p,q)])) for q in prev]) if prev else TRUE
                        ea=ea+z3.If(new,at(da,a,p),z3.RealVal(0)); eb=eb+z3.If(new,at(db,b,p),z3.RealVal(0)); prev.append(p)
                    return a-ea==b-eb
        return None
def guardpoints(ss):
    """points that the guards of the sums compare their variable with"""
    out=[]
    for a in ss:
        d=SUMS[a.decl().name()]
        if len(d.bound)!=1: continue
        v=z3.FreshConst(d.bound[0].sort(),"s"); g,t=d.parts(a.children(),[v]); seen=set(); st=[g]
        while st:
            x=st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_quantifier(x): continue
            if z3.is_eq(x):
                for p,q in ((x.arg(0),x.arg(1)),(x.arg(1),x.arg(0))):
                    if p.eq(v) and not contains(q,{v.decl().name()}) and not any(q.eq(o[0]) for o in out): out.append([q])
            st.extend(x.children())
    return out[:4]
def splitsum(a,f):
    """a sum over a guard is the sum where f holds plus the sum where it does not"""
    d=SUMS[a.decl().name()]; vs=[z3.FreshConst(x.sort(),"s") for x in d.bound]; g,t=d.parts(a.children(),vs); c=f(vs,g,t)
    if c is None: return None
    x,y=SUM(vs,AND(g,c),t),SUM(vs,AND(g,NOT(c)),t)
    if x.eq(a) or y.eq(a): return None
    return [x,y]
def orderapps(ss):
    """splits by the unknown orders that some sums use to run over unordered pairs"""
    out=[]
    for a in ss:
        d=SUMS[a.decl().name()]; vs=[z3.FreshConst(x.sort(),"s") for x in d.bound]; g,t=d.parts(a.children(),vs)
        for x in subterms(g):
            if z3.is_app(x) and x.decl().name().startswith("order!") and x.num_args()>=2:
                def f(ws,g2,t2,x=x,vs=vs):
                    if len(ws)!=len(vs) or [w.sort() for w in ws]!=[v.sort() for v in vs] or x.decl().name() in funs(g2): return None
                    return z3.substitute(x,*zip(vs,ws))
                out.append(f)
    return out
def disjsplit(a):
    """a sum over a guard A or B is the sum over A plus the sum over B without A"""
    d=SUMS[a.decl().name()]; vs=[z3.FreshConst(x.sort(),"s") for x in d.bound]; g,t=d.parts(a.children(),vs); cs=conj(nnf(g))
    best=None
    for i,c in enumerate(cs):
        if not z3.is_or(c) or c.num_args()>3: continue
        rest=cs[:i]+cs[i+1:]; out=[]; prev=[]
        for k in c.children(): out.append(SUM(vs,AND(*(rest+[k]+prev)),t)); prev=prev+[NOT(k)]
        n=sum(len(SUMS[x.decl().name()].bound) for x in sums_in(out))-len(d.bound)*len(sums_in(out))
        if (n<0 or not sums_in(out)) and (best is None or n<best[0]): best=(n,out)
    return best and best[1]
def prove(o,timeout=6000,points=(),hints=()):
    t0=time.time()
    o.status,o.model,o.by="proved",None,"z3"
    try:
        for hy,g in split(z3.simplify(o.goal) if not z3.is_true(o.goal) else o.goal):
            st,mo=prove1(list(o.hyps)+hy,g,timeout,points,hints)
            if st!="proved":
                o.status,o.model=st,mo
                if st=="refuted": break
    except z3.Z3Exception as e: o.status,o.model="unknown",str(e)[:200]
    o.t=time.time()-t0; return o
def ifs(t):
    """conditions of if-then-else terms that contain no bound variables, outermost first"""
    out=[]; seen=set(); st=[t]
    while st:
        x=st.pop(0); i=x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x): continue
        if z3.is_app(x):
            if x.decl().kind()==z3.Z3_OP_ITE: out.append(x.arg(0))
            st.extend(x.children())
    return out
def prove1(hyps,g,timeout,points,hints=()):
    if z3.is_not(g) and (sums_in(hyps) or sums_in([g])): hyps,g=hyps+[g.arg(0)],FALSE
    ss=sums_in([g])
    if not ss:
        hs=sums_in(hyps)
        if hs and z3.is_false(g) and orderapps(hs):
            q=[h for h in hyps if sums_in([h]) and not hasquant(h)]
            if q:
                st,mo=check(hyps,g,1500,full=False)
                if st=="proved": return st,mo
                st,mo=sumgoal([h for h in hyps if not any(h.eq(x) for x in q)],NOT(AND(*q)),timeout,points,0,hints)
                if st=="proved": return st,mo
        if hs:
            st,mo=check(hyps,g,min(timeout,1500),full=False)
            if st=="proved": return st,mo
            f=hypfacts(hyps,hs)
            if f and check(hyps+f,g,timeout,full=False)[0]=="proved": return "proved",None
            if z3.is_eq(g) and g.arg(0).sort()==V and any("pylt" in funs(h) for h in hyps):
                # by cases on the order of the two names
                if all(bycase(hyps+[c],g,hs) for c in (PYLT(g.arg(0),g.arg(1)),PYLT(g.arg(1),g.arg(0)),AND(NOT(PYLT(g.arg(0),g.arg(1))),NOT(PYLT(g.arg(1),g.arg(0)))))): return "proved",None
        st,mo=check(hyps,g,timeout)
        if st=="refuted" and hs: st="unknown"
        return st,mo
    st,mo=check(hyps,g,min(timeout,1500),full=False)
    if st=="proved": return st,mo
    return sumgoal(hyps,g,timeout,points,0,hints)
def hasquant(t): return any(z3.is_quantifier(x) for x in subterms(t))
def bycase(hyps,g,hs): return check(hyps+hypfacts(hyps,hs),g,2000,full=False)[0]=="proved"
def hypfacts(hyps,hs):
    """consequences of equations between sums that appear in the hypotheses"""
    ctx=SumCtx(hyps,1500); f=[]
    for a in hs:
        if ctx.nonneg(a): f.append(a>=0); f+=ctx.nozero(a)
    for a,b in itertools.combinations(hs,2):
        if ctx.pointwise(a,b): f.append(a==b); continue
        f+=ctx.mono(a,b)+ctx.mono(b,a)
    return f
def product(a):
    """a sum over pairs of unrelated variables is a product of sums"""
    d=SUMS[a.decl().name()]
    if len(d.bound)<2 or not z3.is_rational_value(z3.simplify(d.term)): return None
    vs=[z3.FreshConst(x.sort(),"s") for x in d.bound]; g,t=d.parts(a.children(),vs); cs=sum([conj(c) for c in conj(g)],[]); groups=[[v] for v in vs]
    for c in cs:
        names=set(consts(c)); m=[q for q in groups if any(v.decl().name() in names for v in q)]
        if len(m)>1: groups=[q for q in groups if q not in m]+[sum(m,[])]
    if len(groups)<2: return None
    return [z3.simplify(t)]+[SUM(q,AND(*[c for c in cs if any(v.decl().name() in set(consts(c)) for v in q)]),z3.RealVal(1)) for q in groups]
def products(hyps,g):
    ss=sums_in([g]); known=ss+sums_in(hyps); sub=[]
    for a in ss:
        p=product(a)
        if p and all(is_sum(x) and any(x.eq(y) for y in known) for x in p[1:]): sub.append((a,z3.Product(*p)))
    return sub
def openargs(a):
    return any(z3.is_var(x) for x in subterms(a))
def subterms(t):
    out=[]; seen=set(); st=[t]
    while st:
        x=st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id()); out.append(x)
        if z3.is_app(x): st.extend(x.children())
    return out
def samedefs(hyps,g):
    """sums with bound variables as arguments: definitions that agree for all arguments"""
    ds={}
    for a in sums_in([g]):
        if openargs(a): ds[a.decl().name()]=a
    if not ds: return []
    for a in sums_in(hyps): ds.setdefault(a.decl().name(),a)
    out=[]; ctx=SumCtx(hyps,1500)
    for x,y in itertools.combinations(sorted(ds),2):
        a,b=ds[x],ds[y]
        if not (openargs(a) or openargs(b)) or a.num_args()!=b.num_args() or a.num_args()>3: continue
        vs=[z3.FreshConst(c.sort(),"v") for c in a.children()]
        for p in itertools.permutations(range(len(vs))):
            if [c.sort() for c in b.children()]!=[vs[i].sort() for i in p]: continue
            u,v=a.decl()(*vs),b.decl()(*[vs[i] for i in p])
            if ctx.pointwise(u,v): out.append(FORALL(vs,u==v)); break
    return out
def sumgoal(hyps,g,timeout,points,depth,hints=()):
    if depth==0:
        f=samedefs(hyps,g)
        if f:
            hyps=hyps+f
            if check(hyps,g,timeout,full=False)[0]=="proved": return "proved",None
        sub=products(hyps,g)
        if sub: g=z3.substitute(g,*sub); hyps=[z3.substitute(h,*sub) for h in hyps]
        ctx=SumCtx(hyps,1500)
        for a in sums_in(hyps):
            if any((z3.is_eq(h) and (h.arg(0).eq(a) and iszero(h.arg(1)) or h.arg(1).eq(a) and iszero(h.arg(0)))) for h in hyps) and ctx.nonneg(a): hyps=hyps+ctx.nozero(a)
    cs=ifs(g)
    if cs and depth<8:
        c=cs[0]
        for h,val in ((c,True),(NOT(c),False)):
            g2=z3.simplify(z3.substitute(g,(c,z3.BoolVal(val)))); hy=hyps+[h]
            if z3.is_true(g2): continue
            if check(hy,FALSE,1500,full=False)[0]=="proved": continue
            st,mo=sumgoal(hy,g2,timeout,points,depth+1,hints)
            if st!="proved": return st,mo
        return "proved",None
    ss=sums_in([g])
    if check(hyps,g,1500,full=False)[0]=="proved": return "proved",None
    splits=[h for h in hints if callable(h) and not isz(h)]; hints=[h for h in hints if isz(h)]
    ss=ss+[h for h in sums_in(list(hints)) if not any(h.eq(y) for y in ss)] if ss else ss
    ctx=SumCtx(hyps,1500); facts=[]
    for a in ss:
        r=disjsplit(a)
        if r is not None: facts.append(a==z3.Sum(*r)); ss=ss+[x for x in sums_in(r) if not any(x.eq(y) for y in ss)]
    splits=splits+orderapps(ss)
    for rnd in range(2):
        for a in list(ss):
            for f in splits:
                r=splitsum(a,f)
                if r is None: continue
                facts.append(a==r[0]+r[1]); ss+=[x for x in sums_in(r) if not any(x.eq(y) for y in ss)]
        if len(ss)>24 or not splits: break
    if len(ss)>40: ss=ss[:40]
    ctx=SumCtx(hyps,1500); allss=ss+[x for x in sums_in(hyps) if not any(x.eq(y) for y in ss)]
    pairs=[(a,b) for a,b in itertools.combinations(allss,2) if any(a.eq(y) for y in ss) or any(b.eq(y) for y in ss)]
    def done(): return bool(facts) and check(hyps+facts,g,2000,full=False)[0]=="proved"
    for a in ss:
        if ctx.nonneg(a): facts.append(a>=0)
        if intlike_sum(a): facts.append(z3.IsInt(a))
    for a,b in pairs:
        if ctx.pointwise(a,b): facts.append(a==b)
    if done(): return "proved",None
    for a in ss:
        if ctx.zero(a): facts.append(a==0)
    if done(): return "proved",None
    if len(ss)>=3:
        for c in ss:
            for a,b in itertools.combinations([x for x in ss if not x.eq(c)],2):
                if len(SUMS[a.decl().name()].bound)<len(SUMS[b.decl().name()].bound): a,b=b,a
                if ctx.union(a,b,c): facts.append(c==a+b)
        if done(): return "proved",None
    points=list(points)+[p for p in guardpoints(ss) if not any(len(p)==len(q) and all(x.eq(y) for x,y in zip(p,q)) for q in points)]
    for a in ss:
        f=ctx.support(a,points)
        if f is not None: facts.append(f)
    for a,b in pairs:
        f=ctx.update(a,b,points)
        if f is not None: facts.append(f)
    if done(): return "proved",None
    st,mo=check(hyps+facts,g,timeout)
    return ("proved",None) if st=="proved" else ("unknown","sums")
