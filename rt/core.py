"""Bounded companions of the contracts of net.py (C01-C08)."""
from common import *

class Prop(object):
    quick=2000; thorough=40000; timeout=20; hang_is_violation=True
    bound=""; known={}
    def fixed(self,tier): return iter(())
    def rand(self,rng,tier): return None
    def check(self,case): raise NotImplementedError
    def valid(self,case): return True
    def nontrivial(self,case): return bool(case.get("spec",{}).get("ops",True)) if isinstance(case,dict) else True
PROPS={}
def register(c): PROPS[c.__name__]=c(); return c

def ext_grid(r,rng=None,limit=24):
    """all node-layers over existing names plus one unknown name per aspect"""
    sl=[sorted(s,key=repr)+["?new%d"%a] for a,s in enumerate(r.slices)]
    g=list(itertools.product(*sl))
    if len(g)>limit:
        (rng or random.Random(len(g))).shuffle(g); g=g[:limit]
    return g
def wexp(r,n1,n2): return r.W(n1,n2)

def small_histories(tier,kinds=(("ml",0),("ml",1)),ws=(1,2,0)):
    """every history of at most k assignments over a two-node (two-layer) universe"""
    for kind,aspects in kinds:
        nodes=(0,1)
        nls=list(itertools.product(nodes,*([("A","B")]*aspects)))
        ops=[("set",a,b,w,0) for a in nls for b in nls for w in ws]
        for directed in (False,True):
            for fic in ((True,) if aspects==0 else (True,False)):
                k=(3 if aspects==0 else 1) if tier=="quick" else (4 if aspects==0 else 2)
                for n in range(0,k+1):
                    for h in itertools.product(ops,repeat=n):
                        yield {"spec":{"kind":kind,"aspects":aspects,"directed":directed,"noEdge":0,"fic":fic,"ops":list(h)}}
def ml_spec(rng,tier,weights="num",**kw):
    kw.setdefault("kind","ml"); kw.setdefault("aspects",[0,0,1,1,2,3])
    kw.setdefault("noEdge",[0,0,-1,None,float("inf")] if weights!="num" else [0,0,0,-1,7])
    return rand_spec(rng,weights=weights,**kw)

@register
class C01(Prop):
    bound="all histories of up to 3 assignments over 2 nodes (no aspects) and 1 over 2 nodes x 2 layers, plus seeded random histories of up to 30 operations with 0-3 aspects"
    def fixed(self,tier): return small_histories(tier)
    def rand(self,rng,tier):
        return {"spec":ml_spec(rng,tier,rng.choice(["num","any","any"])),"seed":rng.randrange(10**6)}
    def check(self,case):
        spec=case["spec"]; rng=random.Random(case.get("seed",0))
        net=new(spec); r=Ref(spec); none=spec["noEdge"]
        for k,op in enumerate(spec["ops"]):
            apply_real(net,op); apply_ref(r,op)
            if op[0]=="set" or k==len(spec["ops"])-1:
                g=ext_grid(r,rng,8 if k<len(spec["ops"])-1 else 20)
                if op[0]=="set": g=list(dict.fromkeys([op[1],op[2]]+g))
                for a in g:
                    for b in g:
                        w=readW(net,a,b); x=wexp(r,a,b)
                        require(eqv(w,x),"after",op,"edge",a,b,"reads",repr(w),"expected",repr(x))
        g=ext_grid(r,rng,14)
        for a in g:
            for b in g:
                x=wexp(r,a,b)
                w=net[nlkey(net,a)][nlkey(net,b)]
                require(eqv(w,x),"node view of",a,"reads",b,"as",repr(w),"expected",repr(x))
                if net.aspects>0 and short_ok(a,b):
                    w=net[(a[0],b[0])+a[1:]]
                    require(eqv(w,x),"short form",a,b,"reads",repr(w),"expected",repr(x))
                if net.aspects>0:
                    view=net[interleave(a,(slice(None),)*len(a))]
                    require(eqv(view[b],x),"sliced view of",a,"reads",b)

def nbrs(view,it,aspects):
    out=list(getattr(view,it)() if it else view)
    return [(x,) if aspects==0 else x for x in out]
def exp_nbrs(r,n,mode,pat=None):
    E=r.edges(); o=set(b for (a,b) in E if a==n); i=set(a for (a,b) in E if b==n)
    s={"out":o,"in":i,"total":o|i}[mode if r.directed else "out"]
    if pat is not None: s=set(x for x in s if all(p is None or p==v for p,v in zip(pat,x)))
    return s
def check_view(r,view,n,pat,what):
    for it,mode in (("iter_out","out"),("iter_in","in"),("iter_total","total"),(None,"total")):
        L=nbrs(view,it,r.aspects); x=exp_nbrs(r,n,mode,pat)
        require(len(L)==len(set(L)),what,": neighbour given twice",it,L)
        require(set(L)==x,what,":",it or "iter","gives",L,"expected",x)
    for f,mode in (("deg_out","out"),("deg_in","in"),("deg_total","total"),("deg","total"),("__len__","total")):
        k=getattr(view,f)(); x=len(exp_nbrs(r,n,mode,pat))
        require(k==x,what,":",f,"is",k,"expected",x)
def patterns(r,n,rng,k=3):
    for _ in range(k):
        pat=[]
        for a in range(r.aspects+1):
            vals=sorted(r.slices[a],key=repr)+[n[a]]
            pat.append(None if rng.random()<.5 else rng.choice(vals))
        yield pat
def view_of(net,n,pat):
    return net[interleave(n,tuple(slice(None) if p is None else p for p in pat))]

@register
class C02(Prop):
    bound=C01.bound
    def fixed(self,tier): return small_histories(tier)
    def rand(self,rng,tier):
        return {"spec":ml_spec(rng,tier,rng.choice(["num","any"])),"seed":rng.randrange(10**6)}
    def check(self,case):
        spec=case["spec"]; rng=random.Random(case.get("seed",0))
        net=new(spec); r=Ref(spec); n=len(spec["ops"])
        for k,op in enumerate(spec["ops"]):
            apply_real(net,op); apply_ref(r,op)
            if op[0]=="set" and k<n-1:
                for a in (op[1],op[2]): check_view(r,net[nlkey(net,a)],a,None,"after %r node %r"%(op,a))
        for a in ext_grid(r,rng,16):
            check_view(r,net[nlkey(net,a)],a,None,"node %r"%(a,))
            for pat in patterns(r,a,rng):
                if None in pat: check_view(r,view_of(net,a,pat),a,pat,"node %r sliced %r"%(a,pat))
                for f,mode in (("deg_out","out"),("deg_in","in"),("deg_total","total"),("deg","total")):
                    kk=getattr(net[nlkey(net,a)],f)(*pat); x=len(exp_nbrs(r,a,mode,pat))
                    require(kk==x,"node",a,f,pat,"is",kk,"expected",x)

def exp_str(r,n,mode,pat=None):
    if not r.directed: mode="out"
    E=r.edges(); ok=lambda x: pat is None or all(p is None or p==v for p,v in zip(pat,x))
    o=sum(w for (a,b),w in E.items() if a==n and ok(b)); i=sum(w for (a,b),w in E.items() if b==n and ok(a))
    return {"out":o,"in":i,"total":o+i}[mode]
@register
class C03(Prop):
    bound=C01.bound
    def fixed(self,tier): return small_histories(tier,ws=(1,-2.5,0) if tier=="quick" else (1,2,-2.5,0))
    def rand(self,rng,tier):
        return {"spec":ml_spec(rng,tier,"num"),"seed":rng.randrange(10**6)}
    def check(self,case):
        spec=case["spec"]; rng=random.Random(case.get("seed",0)); net=build(spec); r=ref(spec)
        for a in ext_grid(r,rng,16):
            pats=[None]+[p for p in patterns(r,a,rng)]
            for pat in pats:
                for f,mode in (("str_out","out"),("str_in","in"),("str_total","total"),("str","total")):
                    x=exp_str(r,a,mode,pat)
                    if pat is None or None in pat:
                        v=net[nlkey(net,a)] if pat is None else view_of(net,a,pat)
                        s=getattr(v,f)()
                        require(close(s,x),"node",a,"sliced",pat,f,"is",s,"expected",x)
                    if pat is not None:
                        s=getattr(net[nlkey(net,a)],f)(*pat)
                        require(close(s,x),"node",a,f,pat,"is",s,"expected",x)

def check_registry(net,r,what):
    for a in range(r.aspects+1):
        require(set(net.slices[a])==r.slices[a],what,"elementary layers of aspect",a,net.slices[a],"expected",r.slices[a])
        if a>0:
            L=list(net.iter_layers(a)); require(len(L)==len(set(L)) and set(L)==r.slices[a],what,"iter_layers",a,L)
            require(set(net.get_layers(a))==r.slices[a],what,"get_layers",a)
    L=list(net); require(sorted(map(repr,L))==sorted(map(repr,r.slices[0])),what,"nodes",L,"expected",r.slices[0])
    L=list(net.iter_nodes()); require(len(L)==len(set(L)) and set(L)==r.slices[0],what,"iter_nodes",L)
    require(len(net)==len(r.slices[0]),what,"len",len(net))
    require("?no such node" not in net,what,"membership")
    for x in r.slices[0]: require(x in net,what,"membership of",x)
    nls=r.nls()
    L=[(x if isinstance(x,tuple) else (x,)) for x in net.iter_node_layers()]
    require(len(L)==len(set(L)) and set(L)==nls,what,"node-layers",L,"expected",nls)
    if r.aspects>0:
        combos=[x[0] if r.aspects==1 else x for x in itertools.product(*r.slices[1:])]
        L=list(net.iter_layers()); require(len(L)==len(set(L)) and set(L)==set(combos),what,"layers",L,"expected",combos)
        for c in combos:
            t=(c,) if r.aspects==1 else c
            L=list(net.iter_nodes(layer=c)); x=set(n[0] for n in nls if n[1:]==t) if not r.fic else r.slices[0]
            require(len(L)==len(set(L)) and set(L)==x,what,"nodes of layer",c,L,"expected",x)
@register
class C04(Prop):
    bound="every history of up to 3 operations over 2 nodes and 2 layers (1 aspect), plus seeded random histories of up to 30 operations with 0-3 aspects, general and multiplex"
    def fixed(self,tier):
        for kind in ("ml","mx"):
            nls=list(itertools.product((0,1),("A","B")))
            ops=[("add_node",0),("add_node",1),("add_layer","A",1),("add_layer","B",1)]+[("add_nl",x,False) for x in nls]
            ops+=[("set",a,b,w,0) for a in nls for b in nls for w in (1,0) if kind=="ml" or (a!=b and a[1]==b[1])]
            for directed in (False,True):
                for fic in (False,True):
                    for n in range(0,3 if tier=="quick" else 4):
                        for h in itertools.product(ops,repeat=n):
                            s={"kind":kind,"aspects":1,"directed":directed,"noEdge":0,"fic":fic,"ops":list(h)}
                            if kind=="mx": s["couplings"]=[("none",)]
                            yield {"spec":s}
    def rand(self,rng,tier):
        s=rand_spec(rng,aspects=rng.choice([0,1,1,2,3]),kind="ml") if rng.random()<.7 else rand_spec(rng,kind="mx")
        return {"spec":s}
    def check(self,case):
        spec=case["spec"]; net=new(spec); r=Ref(spec)
        for k,op in enumerate(spec["ops"]):
            apply_real(net,op); apply_ref(r,op)
            check_registry(net,r,"after %d operations, last %r:"%(k+1,op))
        check_registry(net,r,"at the end:")
        for op in list(spec["ops"])[-3:]:      # adding what exists changes nothing
            apply_real(net,op); apply_ref(r,op)
        check_registry(net,r,"after repeating operations:")

@register
class C05(Prop):
    bound=C01.bound+"; general and multiplex"
    def fixed(self,tier): return small_histories(tier)
    def rand(self,rng,tier):
        s=ml_spec(rng,tier,rng.choice(["num","any"])) if rng.random()<.6 else rand_spec(rng,kind="mx",weights="num")
        return {"spec":s}
    def check(self,case):
        net=build(case["spec"]); r=ref(case["spec"]); E=r.edges()
        L=list(net.edges); seen=set()
        for e in L:
            require(len(e)==2*(r.aspects+1)+1,"malformed edge",e)
            l=tuple(e[:-1]); n1=l[0::2]; n2=l[1::2]
            require((n1,n2) in E,"listed",e,"is not an edge")
            require(eqv(E[(n1,n2)],e[-1]),"listed",e,"has weight",E[(n1,n2)])
            k=(n1,n2) if r.directed else frozenset((n1,n2))
            require(k not in seen,"edge listed twice",e); seen.add(k)
        want=set(E) if r.directed else set(frozenset(k) for k in E)
        require(seen==want,"not listed:",want-seen)
        require(len(net.edges)==len(L),"reported number of edges",len(net.edges),"but",len(L),"listed")

def mutate(rng,spec):
    s=dict(spec); s["ops"]=list(spec["ops"]); r=ref(spec)
    k=rng.randrange(7)
    sl=[sorted(x,key=repr) for x in r.slices]
    if k==0: s["ops"].append(("add_node","?m"))
    elif k==1 and r.aspects: s["ops"].append(("add_layer",99,rng.randrange(r.aspects)+1))
    elif k==2 and r.aspects and all(sl): s["ops"].append(("add_nl",tuple(rng.choice(x) for x in sl),False))
    elif k in (3,4) and r.e:
        e=rng.choice(sorted(r.e,key=repr)); s["ops"].append(("set",e[0],e[1],rng.choice([r.noEdge,5,-9]),0))
    elif k==5 and all(sl):
        a=tuple(rng.choice(x) for x in sl); b=(rng.choice(sl[0]),)+a[1:] if r.kind=="mx" or rng.random()<.5 else tuple(rng.choice(x) for x in sl)
        if not(r.kind=="mx" and a==b): s["ops"].append(("set",a,b,rng.choice([1,4]),0))
    elif k==6:
        j=rng.randrange(4)
        if j==0: s["directed"]=not s["directed"]
        elif j==1: s["fic"]=not s["fic"]
        elif j==2: s["noEdge"]=-77
        elif s["kind"]=="mx":
            cs=list(s["couplings"]); i=rng.randrange(len(cs))
            cs[i]=rng.choice([("categorical",1.0),("categorical",2.0),("none",)]); s["couplings"]=cs
    return s
@register
class C06(Prop):
    quick=3000
    bound="seeded random pairs: rebuilt in another order, one change, different kinds; general and multiplex, 0-2 aspects"
    def rand(self,rng,tier):
        s=rand_spec(rng,weights=rng.choice(["num","any"]),nops=rng.choice([0,1,2,3,5,8]))
        x=rng.random()
        if x<.3: t=shuffle_build(rng,ref(s),s)
        elif x<.75: t=mutate(rng,s if rng.random()<.5 else shuffle_build(rng,ref(s),s))
        else: t=rand_spec(rng,nops=rng.choice([0,1,2,3]))
        return {"spec":s,"other":t,"nn":rng.random()<.1}
    def fixed(self,tier):
        L=[]
        for kind in ("ml","mx"):
            for aspects in (0,1):
                if kind=="mx" and aspects==0: continue
                for directed in (False,True):
                    for fic in (False,True):
                        for ops in ([],[("add_node",0)],[("add_node",0),("add_layer","A",1)],[("add_nl",(0,"A"),False)],[("set",(0,"A"),(1,"A"),1,0)],[("set",(0,"A"),(1,"A"),2,0)],[("set",(1,"A"),(0,"A"),1,0)]):
                            if aspects==0:
                                if any(o[0] in("add_layer","add_nl") for o in ops): continue
                                ops=[(o[0],)+tuple(x[:1] if isinstance(x,tuple) else x for x in o[1:]) for o in ops]
                            for c in ([("none",)],[("categorical",1.0)]) if kind=="mx" else (None,):
                                s={"kind":kind,"aspects":aspects,"directed":directed,"noEdge":0,"fic":fic,"ops":ops}
                                if c: s["couplings"]=c
                                L.append(s)
        for a in L:
            for b in L: yield {"spec":a,"other":b}
    def check(self,case):
        a,b=build(case["spec"]),build(case["other"]); ra,rb=ref(case["spec"]),ref(case["other"])
        x=ra.content()==rb.content() and ra.couplings==rb.couplings
        for p,q,d in ((a,b,"=="),(b,a,"== (swapped)")):
            r=(p==q); require(r is True or r is False or isinstance(r,bool),"comparison gives",r)
            require(r==x,d,"is",r,"expected",x)
            require((p!=q)==(not x),"!= is",p!=q,"expected",not x)
        require(a==a and not (a!=a),"network differs from itself")
        for o in (None,1,"net",(),object()):
            require(not (a==o) and (a!=o),"network equal to",o)

def coup_gen(rng,aspects):
    cs=[]
    for a in range(aspects):
        c=rng.choice(["categorical","categorical","ordinal","ordinal","none"])
        cs.append(("none",) if c=="none" else (c,rng.choice([1.0,1,2,0.5,-1,3])))
    return cs
@register
class C07(Prop):
    bound="all coupling policies over 1-2 aspects with 2-3 layers each and 2 nodes, every subset of added node-layers (1 aspect), plus seeded random histories with up to 3 aspects"
    def fixed(self,tier):
        for cs in [[("categorical",1.0)],[("categorical",2.0)],[("ordinal",1.0)],[("ordinal",0.5)],[("none",)]]:
            nls=list(itertools.product((0,1),(1,2,3)))
            for directed in (False,True):
                for m in range(2**len(nls)):
                    ops=[("add_layer",l,1) for l in (1,2,3)]+[("add_node",0)]+[("add_nl",x,False) for i,x in enumerate(nls) if m>>i&1]
                    if m%3==0: ops.append(("set",(0,1),(1,1),3,0))
                    yield {"spec":{"kind":"mx","aspects":1,"couplings":cs,"directed":directed,"noEdge":0,"fic":False,"ops":ops}}
                for n in range(1,4):
                    yield {"spec":{"kind":"mx","aspects":1,"couplings":cs,"directed":directed,"noEdge":0,"fic":True,"ops":[("add_layer",l,1) for l in range(n)]+[("add_node",0),("add_node",1),("set",(0,0),(1,0),2,0)]}}
        for cs in itertools.product([("categorical",1.0),("ordinal",2.0),("none",)],repeat=2):
            for fic in (True,False):
                ops=[("add_layer",l,a) for a in (1,2) for l in (1,2,4)]
                ops+=[("add_nl",x,False) for x in itertools.product((0,1),(1,2,4),(1,2,4)) if (x[0]+x[1]+x[2])%3]
                yield {"spec":{"kind":"mx","aspects":2,"couplings":list(cs),"directed":False,"noEdge":0,"fic":fic,"ops":ops+[("set",(0,1,2),(1,1,2),5,0)]}}
    def rand(self,rng,tier):
        if rng.random()<.2: return dict(PROPS["C08"].rand(rng,tier,bad=False),seed=rng.randrange(10**6))
        return {"spec":rand_spec(rng,kind="mx",aspects=rng.choice([1,1,1,2,2,3]),couplings=coup_gen,noEdge=[0,0,0,-9],weights="num",nops=rng.choice([1,2,3,5,8,12,20])),"seed":rng.randrange(10**6)}
    def check(self,case):
        spec=case["spec"]; rng=random.Random(case.get("seed",0)); net=new(spec); r=Ref(spec)
        for op in spec["ops"]: PROPS["C08"].areal(net,r,op,"after %r"%(op,)); PROPS["C08"].aref(r,op)
        nls=sorted(r.nls(),key=repr); E=r.edges()
        if len(nls)>40: rng.shuffle(nls); nls=nls[:40]
        for a in nls:
            for b in nls:
                w=readW(net,a,b); x=E.get((a,b),r.noEdge)
                require(eqv(w,x),"edge",a,b,"reads",w,"expected",x)
            what="node-layer %r"%(a,)
            check_view(r,net[a],a,None,what)
            pats=[None]
            for _ in range(2):
                pat=[None if rng.random()<.5 else v for v in a]
                if None in pat: pats.append(pat); check_view(r,view_of(net,a,pat),a,pat,what+" sliced %r"%(pat,))
            for pat in pats:
                v=net[a] if pat is None else view_of(net,a,pat)
                for f,mode in (("str_out","out"),("str_in","in"))+((("str_total","total"),("str","total")) if not r.directed else ()):
                    s=getattr(v,f)(); x=exp_str(r,a,mode,pat)
                    require(close(s,x),what,"sliced",pat,f,"is",s,"expected",x)
            for pat in patterns(r,a,rng,1):   # sliced by values other than the node's own: see KNOWN_FINDINGS (slice-by-other-value)
                if None not in pat or all(p is None or p==v for p,v in zip(pat,a)): continue
                v=view_of(net,a,pat); L=nbrs(v,None,r.aspects); x=exp_nbrs(r,a,"total",pat)
                if L==[] and v.deg()==0 and v.deg_out()==0 and v.str_out()==0 and not case.get("strict"): continue
                check_view(r,v,a,pat,what+" sliced %r"%(pat,))
        if case.get("strict"):
            a=case["strict"][0]; pat=case["strict"][1]; check_view(r,view_of(net,a,pat),a,pat,"node-layer %r sliced %r"%(a,pat))
    known={"slice-by-other-value":{"spec":{"kind":"mx","aspects":1,"couplings":[("categorical",1.0)],"directed":False,"noEdge":0,"fic":True,"ops":[("add_layer","A",1),("add_layer","B",1),("add_node",1)]},"strict":((1,"A"),[None,"B"])}}

@register
class C08(Prop):
    bound="seeded random histories of up to 25 operations through the network and through its layers, 1-2 aspects"
    quick=1500
    def rand(self,rng,tier,bad=True):
        s=rand_spec(rng,kind="mx",aspects=rng.choice([1,1,2]),weights="num",couplings=coup_gen,noEdge=[0,0,-9],nops=rng.choice([2,4,8,15,25]))
        r=Ref(s); ops=[]
        def do(op): self.aref(r,op); ops.append(op)
        names=lambda x: sorted(x,key=repr)
        for op in s["ops"]:
            if op[0]=="set" and rng.random()<.4 and self_layer_exists(r,op[1]): op=("setA",op[1],op[2],op[3])
            do(op)
            if not all(r.slices): continue
            if rng.random()<.12:
                L=tuple(rng.choice(names(x)) for x in r.slices[1:]); nodes=names(r.slices[0])+["?x"]; e=[]
                for _ in range(rng.randrange(4)):
                    i,j=rng.choice(nodes),rng.choice(nodes)
                    if i!=j: e.append((i,j,rng.choice([1,2,3])))
                do(("replace",L,e,[rng.choice(nodes)]))
            if bad and rng.random()<.15:
                p=tuple(rng.choice(names(x)) for x in r.slices); q=tuple(rng.choice(names(x)) for x in r.slices)
                if p==q or p[1:]!=q[1:]: do(("bad",p,q,rng.choice([1,2,5,s["noEdge"]]),rng.choice([0,2])))
            if rng.random()<.1:
                do(("addA",(rng.choice(["?y",0]),)+tuple(rng.choice(names(x)) for x in r.slices[1:])))
        s["ops"]=ops
        return {"spec":s}
    def aref(self,r,op):
        if op[0]=="replace":
            L=op[1]
            for e in [e for e in r.e if e[0][1:]==L]: del r.e[e]
            if not r.fic: r._nls=set(x for x in r._nls if x[1:]!=L)
            for n in op[3]: r.add_node(n,L)
            for i,j,w in op[2]:
                if not eqv(w,r.noEdge): r.set((i,)+L,(j,)+L,w)
                else: r.add_node(i,L); r.add_node(j,L)
        elif op[0]=="bad":   # names may be registered, edges may not change
            if not r.fic: r._nls|={op[1],op[2]}
        elif op[0]=="addA": r.add_node(op[1][0],op[1][1:])
        else: apply_ref(r,op)
    def areal(self,net,r,op,what):
        key=lambda L: L[0] if r.aspects==1 else L
        if op[0]=="replace":
            m=pymnet.MultilayerNetwork(aspects=0,directed=r.directed,noEdge=r.noEdge); L=op[1]
            for n in op[3]: m.add_node(n)
            for i,j,w in op[2]: m[i,j]=w
            before=snapshot(m)
            net.A[key(L)]=m
            require(snapshot(m)==before,what,"replacing a layer changed the given network")
        elif op[0]=="addA": net.A[key(op[1][1:])].add_node(op[1][0])
        else: apply_real(net,op)
    def check(self,case):
        spec=case["spec"]; net=new(spec); r=Ref(spec); bad=False
        key=lambda L: L[0] if r.aspects==1 else L
        for k,op in enumerate(spec["ops"]):
            what="after %d operations, last %r:"%(k+1,op)
            if op[0]=="bad":
                bad=True; ok=False
                try: write(net,op[1],op[2],op[3],op[4])
                except Exception: ok=True
                require(ok,what,"assigning a self-edge or inter-layer edge was accepted")
            else: self.areal(net,r,op,what)
            self.aref(r,op)
            self.edges_only(net,r,what)
        if bad: return
        combos=set(key(t) for t in itertools.product(*r.slices[1:])) if all(r.slices[1:]) else set()
        require(set(net.A)==combos and len(net.A)==len(combos),"layers with intra-layer network",set(net.A),"expected",combos)
        require(set(net.slices[0])==r.slices[0],"nodes",net.slices[0],"expected",r.slices[0])
        for t in itertools.product(*r.slices[1:]):
            x=r.slices[0] if r.fic else set(n[0] for n in r._nls if n[1:]==t)
            require(set(net.A[key(t)])==x,"nodes of layer",t,set(net.A[key(t)]),"expected",x)
    def edges_only(self,net,r,what,extra=()):
        for t in itertools.product(*r.slices[1:]):
            k=t[0] if r.aspects==1 else t
            A=net.A[k]; E=dict(((a[0],b[0]),w) for (a,b),w in r.e.items() if a[1:]==t)
            nodes=sorted(r.slices[0],key=repr)
            for i in nodes:
                for j in nodes:
                    x=E.get((i,j),r.noEdge)
                    w=A[i,j]; require(eqv(w,x),what,"layer",t,"edge",i,j,"reads",w,"expected",x)
                    if i!=j:
                        w=net[(i,j)+t]; require(eqv(w,x),what,"network edge",i,j,t,"reads",w,"expected",x)
            L=[tuple(e[:2]) for e in A.edges]
            W=set(E) if r.directed else set(frozenset(e) for e in E)
            L2=[(e if r.directed else frozenset(e)) for e in L]
            require(len(L2)==len(set(L2)) and set(L2)==W,what,"edges of layer",t,L,"expected",W)
def self_layer_exists(r,nl): return all(nl[a] in r.slices[a] for a in range(1,r.aspects+1))
