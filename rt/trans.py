"""Bounded companions of the contracts of transforms.py (C09-C14 purity elsewhere, C27)."""
from core import *
from collections import Counter
T=pymnet.transforms

def sub_ref(r,sel):
    s=r.clone()
    s.slices=[set(x)&set(c) for x,c in zip(r.slices,sel)]
    s._nls=set(x for x in r._nls if all(v in c for v,c in zip(x,sel)))
    if not r.fic: s.slices[0]=set(x[0] for x in s._nls)
    s.e={(a,b):w for (a,b),w in r.e.items() if all(v in c for v,c in zip(a,sel)) and all(v in c for v,c in zip(b,sel))}
    return s
def as_ml(r):
    """the same content as a general multilayer network"""
    s=r.clone(); s.e=r.edges(); s.kind="ml"; return s
def empty_like(spec,**kw):
    s=dict(spec); s["ops"]=[]; s.update(kw); return s
def selections(rng,r):
    sel=[]
    for a in range(r.aspects+1):
        ex=sorted(r.slices[a],key=repr); c=[x for x in ex if rng.random()<rng.choice([.4,.8,1])]
        if rng.random()<.2: c=c+["?absent"]
        rng.shuffle(c); sel.append(c)
    return sel

@register
class C09(Prop):
    quick=2500
    bound="seeded random networks (up to 30 operations, 0-2 aspects, general and multiplex, dense and sparse), random node and layer selections, all target kinds"
    def rand(self,rng,tier):
        s=rand_spec(rng,weights=rng.choice(["num","num","any"]),prelayers=True,nops=rng.choice([1,3,5,8,12,20,30,45]))
        if rng.random()<.15: s["ops"]=s["ops"]+[("set",a,b,2,0) for a,b in dense(rng,ref(s))]
        return {"spec":s,"sel":selections(rng,ref(s)),"mode":rng.choice(["plain","plain","plain","new","tomono","nolinks","none","inner"]),"form":rng.randrange(3)}
    def check(self,case):
        spec=case["spec"]; r=ref(spec); net=build(spec); mode=case["mode"]; sel=case["sel"]
        before=snapshot(net)
        f=[list,set,tuple][case["form"]]
        args=[f(c) for c in sel]
        if mode=="none": args=[None]*len(sel); sel=[set(x) for x in r.slices]
        x=sub_ref(r,sel)
        if mode=="new":
            new_=new(empty_like(spec)); got=T.subnet(net,*args,newNet=new_); require(got is new_,"supplied network not returned")
        elif mode=="tomono":
            d=spec["directed"]; fic=spec["fic"] if r.aspects else True
            new_=pymnet.MultilayerNetwork(aspects=r.aspects,directed=d,noEdge=r.noEdge,fullyInterconnected=fic)
            got=T.subnet(net,*args,newNet=new_); require(got is new_,"supplied network not returned"); x=as_ml(x)
        elif mode=="nolinks":
            got=T.subnet(net,*args,nolinks=True); x.e={}
        elif mode=="inner":
            other=new(empty_like(spec,fic=False)) if r.fic and r.aspects else new(empty_like(spec))
            got=T.subnet(net,*args,newNet=other); y=x.clone()
            if r.fic and r.aspects: x.fic=False; x._nls=y.grid()
        else: got=T.subnet(net,*args)
        if mode=="inner" and x.kind=="ml" and not x.fic: x.slices=[set(c) for c in x.slices]
        check_content(got,x,"subnetwork")
        require(snapshot(net)==before,"original changed")
def dense(rng,r):
    g=sorted(r.nls(),key=repr)[:8]
    for a in g:
        for b in g:
            if (r.kind=="ml" or a[1:]==b[1:]) and a!=b and rng.random()<.9: yield a,b

def undirected_once(r):
    seen=set()
    for (a,b),w in r.edges().items():
        if not r.directed:
            if frozenset((a,b)) in seen: continue
            seen.add(frozenset((a,b)))
        yield a,b,w
@register
class C10(Prop):
    quick=2500
    bound="seeded random networks with 1-3 aspects, up to 30 operations; every nonempty set of aspects"
    def rand(self,rng,tier):
        noEdge=rng.choice([0,0,0,-1])
        s=rand_spec(rng,tuplelayers=False,aspects=rng.choice([1,1,2,2,3,4]),noEdge=noEdge,weights="num" if noEdge==0 else "pos",couplings=lambda g,a:[("none",) if g.random()<.3 else (g.choice(["categorical","ordinal"]),g.choice([1.0,2,0.5])) for _ in range(a)])
        asp=[a for a in range(1,s["aspects"]+1) if rng.random()<.6] or [rng.randint(1,s["aspects"])]
        return {"spec":s,"aspects":asp,"self":rng.random()<.4,"form":rng.randrange(3),"overlay":s["aspects"]==1 and noEdge==0}
    def check(self,case):
        spec=case["spec"]; r=ref(spec); net=build(spec); asp=case["aspects"]; before=snapshot(net)
        arg=asp[0] if len(asp)==1 and case["form"]==0 else (tuple(asp) if case["form"]<2 else list(asp))
        keep=[a for a in range(r.aspects+1) if a not in asp]
        P=lambda n: tuple(n[a] for a in keep)
        kw={"selfEdges":True} if case["self"] else {}
        got=T.aggregate(net,arg,**kw)
        E={}
        for a,b,w in undirected_once(r):
            p,q=P(a),P(b)
            if p==q and not case["self"]: continue
            ks=[(p,q)] if r.directed or p==q else [(p,q),(q,p)]
            for k in ks: E[k]=E.get(k,0)+w
        require(got.aspects==len(keep)-1,"aspects",got.aspects); require(bool(got.directed)==r.directed,"directed")
        require(set(got)==r.slices[0],"nodes",set(got),"expected",r.slices[0])
        nls=set(P(n) for n in r.nls())
        gotnls=list(x if isinstance(x,tuple) else (x,) for x in got.iter_node_layers())
        require(set(gotnls)<=set(itertools.product(*[r.slices[a] for a in keep])),"foreign node-layers",gotnls)
        if not r.fic and len(keep)>1: require(set(gotnls)==nls,"node-layers",gotnls,"expected",nls)
        for a in sorted(nls,key=repr):
            for b in sorted(nls,key=repr):
                w=readW(got,a,b); x=E.get((a,b),r.noEdge)
                if abs(E.get((a,b),1))<1e-9: x=r.noEdge; require(close(w,x,1e-9),"edge",a,b,"reads",w,"expected",x); continue
                require(close(w,x) and (eqv(w,r.noEdge)==((a,b) not in E)),"edge",a,b,"reads",w,"expected",x)
        L=list(got.edges); ks=set()
        for e in L: n1,n2=tuple(e[:-1][0::2]),tuple(e[:-1][1::2]); ks.add((n1,n2) if r.directed else frozenset((n1,n2)))
        big=set(k if r.directed else frozenset(k) for k,w in E.items() if abs(w)>1e-9); al=set(k if r.directed else frozenset(k) for k in E)
        require(len(ks)==len(L) and big<=ks<=al,"edges",L)
        if case["overlay"]:
            try: sorted(r.slices[0])
            except TypeError: return
            got=T.overlay_network(net); S={}
            for (a,b),w in r.e.items():
                if a[1]==b[1] and a[0]!=b[0]: S[(a[0],b[0])]=S.get((a[0],b[0]),0)+w
            for i in r.slices[0]:
                for j in r.slices[0]:
                    if i==j: continue
                    require(close(got[i,j],S.get((i,j),0)),"overlay",i,j,"reads",got[i,j],"expected",S.get((i,j),0))
            require(set(got)<=r.slices[0],"overlay has foreign nodes")
        require(snapshot(net)==before,"original changed")

@register
class C11(Prop):
    quick=2500
    bound="seeded random networks with 0-2 aspects, thresholds at, below and above the weights, all rules"
    def rand(self,rng,tier):
        s=rand_spec(rng,weights="num",noEdge=[0,0,-9])
        r=ref(s); ws=sorted(set(r.edges().values()))
        t=rng.choice(ws+[w+.25 for w in ws]+[w-.25 for w in ws]+[0,1])
        return {"spec":s,"t":t,"rule":rng.choice([">=","<=",">","<",None,"=="])}
    def check(self,case):
        spec=case["spec"]; r=ref(spec); net=build(spec); t=case["t"]; rule=case["rule"]; before=snapshot(net)
        f={">=":lambda w:w>=t,None:lambda w:w>=t,"<=":lambda w:w<=t,">":lambda w:w>t,"<":lambda w:w<t}.get(rule)
        E=r.edges()
        if f is None:
            if E:
                try: T.threshold(net,t,method=rule); ok=False
                except Exception: ok=True
                require(ok,"unknown rule accepted")
            return
        got=T.threshold(net,t) if rule is None else T.threshold(net,t,method=rule)
        x=r.clone(); x.e={k:w for k,w in E.items() if f(w)}; x.kind="ml"
        check_content(got,x,"thresholded network",kind=False)
        require(snapshot(net)==before,"original changed")

def inj(rng,names,pool):
    """injective partial map: the names without entry must not collide with images"""
    names=sorted(names,key=repr); mp={}
    fresh=[p for p in pool if p not in names]; perm=[n for n in names if rng.random()<.5]; q=perm[:]; rng.shuffle(q)
    if rng.random()<.5: mp.update(dict(zip(perm,q)))
    else:
        rng.shuffle(fresh)
        for n in names:
            if fresh and rng.random()<.6: mp[n]=fresh.pop()
    if rng.random()<.3: mp["?unused"]="?zz"
    return mp
@register
class C12(Prop):
    quick=2500
    bound="seeded random networks with 0-2 aspects; permutations, partial and fresh maps; all return combinations"
    def rand(self,rng,tier):
        s=rand_spec(rng,weights=rng.choice(["num","any"]),sortable=True,couplings=lambda g,a:[g.choice([("none",),("categorical",1.0),("categorical",2.0)]) for _ in range(a)])
        r=ref(s)
        return {"spec":s,"maps":[inj(rng,x,[100,101,102,103,"P","Q","R","S",(5,5) if False else 5.5]) for x in r.slices],"form":rng.randrange(4),"ns":rng.choice([0,0,1,-2,5]),"ls":rng.choice([0,0,1,7]),"ni":rng.choice([None,True,False]),"li":rng.choice([None,True,False])}
    def image(self,r,maps):
        g=lambda a,v: maps[a].get(v,v); G=lambda n: tuple(g(a,v) for a,v in enumerate(n))
        x=r.clone(); x.slices=[set(g(a,v) for v in s) for a,s in enumerate(r.slices)]
        x._nls=set(map(G,r._nls)); x.e={(G(a),G(b)):w for (a,b),w in r.e.items()}
        return x
    def check(self,case):
        spec=case["spec"]; r=ref(spec); net=build(spec); before=snapshot(net); maps=[dict(m) for m in case["maps"]]
        form=case["form"]; kw={}
        lm=[dict(m) for m in maps[1:]]
        if form==1: maps[0]={}; 
        else: kw["nodeNames"]=dict(maps[0])
        if form==2: maps[1:]=[{}]*r.aspects
        elif r.aspects==1 and form==3: kw["layerNames"]=lm[0]
        elif r.aspects==2 and form==3: kw["layerNames"]=[lm[0]]; maps[2]={}
        else: kw["layerNames"]=lm
        pre=repr(kw)
        got=T.relabel(net,**kw)
        require(repr(kw)==pre,"maps changed"); require(type(got)==type(net),"kind")
        check_content(got,self.image(r,maps),"relabelled network")
        ns,ls=case["ns"],case["ls"]; kw={}
        if case["ni"] is not None: kw["nodesToIndices"]=case["ni"]
        if case["li"] is not None: kw["layersToIndices"]=case["li"]
        if ns: kw["nodeStart"]=ns
        if ls: kw["layerStart"]=ls
        m=[dict((v,i+(ns if a==0 else ls)) for i,v in enumerate(sorted(s))) for a,s in enumerate(r.slices)]
        out=T.normalize(net,**kw)
        outs=(out,) if isinstance(out,pymnet.MultilayerNetwork) else tuple(out)
        require(len(outs)==1+(case["ni"] is not None)+(case["li"] is not None),"number of returned values",len(outs))
        inv=lambda d: dict((v,k) for k,v in d.items())
        i=1
        if case["ni"] is not None:
            require(outs[i]==(m[0] if case["ni"] else inv(m[0])),"node map",outs[i]); i+=1
        if case["li"] is not None:
            x=[d if case["li"] else inv(d) for d in m[1:]]
            if r.aspects==1: x=x[0]
            require(outs[i]==x or (r.aspects!=1 and list(outs[i])==x),"layer map",outs[i],"expected",x)
        check_content(outs[0],self.image(r,m),"normalised network")
        require(snapshot(net)==before,"original changed")

@register
class C13(Prop):
    quick=2000
    bound="seeded random networks with 0-3 aspects and up to about 60 node-layers"
    def rand(self,rng,tier):
        s=rand_spec(rng,weights="num",noEdge=0,sortable=True,aspects=rng.choice([0,1,1,2,3,4]),kind="ml") if rng.random()<.6 else rand_spec(rng,kind="mx",weights="num",noEdge=0,sortable=True,couplings=coup_gen)
        return {"spec":s,"inc":rng.choice([True,True,False]),"fn":rng.random()<.3}
    def check(self,case):
        spec=case["spec"]; r=ref(spec); net=build(spec); before=snapshot(net); E=r.edges()
        f=(lambda **k:T.supra_adjacency_matrix(net,**k)) if case["fn"] else (lambda **k:net.get_supra_adjacency_matrix(**k))
        M,nodes=f() if case["inc"] and case["fn"] else f(includeCouplings=case["inc"])
        L=[x if r.aspects else (x,) for x in nodes]
        require(len(set(L))==len(L) and set(L)==r.grid(),"listed node-layers",L)
        require(M.shape==(len(L),len(L)),"shape",M.shape)
        for i,a in enumerate(L):
            for j,b in enumerate(L):
                if i==j: continue
                x=E.get((a,b),0) if case["inc"] or a[1:]==b[1:] else 0
                require(close(float(M[i,j]),x),"entry",a,b,"is",M[i,j],"expected",x)
        got=T.get_underlying_graph(net)
        u=Ref({"kind":"ml","aspects":0,"directed":r.directed,"noEdge":r.noEdge,"fic":True})
        u.slices=[set(str(n) for n in r.nls())]; u.e={((str(a),),(str(b),)):w for (a,b),w in E.items()}
        check_content(got,u,"underlying graph")
        require(snapshot(net)==before,"original changed")

@register
class C27(Prop):
    quick=600
    bound="seeded random networks with at most 4 nodes, 3 layers per aspect, 6 edges; every list of removable aspects"
    def rand(self,rng,tier):
        while True:
            s=rand_spec(rng,weights="num",aspects=None,nops=rng.choice([1,2,3,5,7]),nn=rng.choice([1,2,3]),couplings=lambda g,a:[g.choice([("none",),("categorical",1.0),("ordinal",1.0)]) for _ in range(a)])
            r=ref(s); k=len(list(undirected_once(r) if r.kind=="ml" else r.e))
            if k<=(6 if r.directed or r.kind=="ml" else 10) and len(r.grid())<=18: break
        return {"spec":s,"rem":[a for a in range(r.aspects+1) if rng.random()<.5],"edges":rng.random()<.6}
    def check(self,case):
        spec=case["spec"]; r=ref(spec); net=build(spec); before=snapshot(net)
        def sub(x):
            x=sorted(x,key=repr)
            for k in range(1,len(x)+1):
                for c in itertools.combinations(x,k): yield c
        opts=[list(sub(s)) if a in case["rem"] else [tuple(s)] for a,s in enumerate(r.slices)]
        want=Counter(); n=0
        for sel in itertools.product(*opts):
            x=sub_ref(r,sel)
            if not case["edges"]: want[x.content()]+=1; n+=1; continue
            es=[]; seen=set()
            for (a,b),w in x.e.items():
                if not r.directed:
                    if frozenset((a,b)) in seen: continue
                    seen.add(frozenset((a,b)))
                es.append((a,b,w))
            for k in range(len(es)+1):
                for c in itertools.combinations(es,k):
                    y=x.clone(); y.e={}
                    for a,b,w in c: y.set(a,b,w)
                    want[y.content()]+=1; n+=1
            if n>4000: return
        got=Counter()
        for g in T.subnet_iter(net,remove_elayers=list(case["rem"]),remove_edges=case["edges"]):
            got[content(g)]+=1
            if sum(got.values())>n+5: break
        require(sum(got.values())==n,"number of subnetworks is",sum(got.values()),"expected",n)
        require(got==want,"subnetworks differ, e.g. missing",list((want-got))[:1],"extra",list((got-want))[:1])
        require(snapshot(net)==before,"original changed")
