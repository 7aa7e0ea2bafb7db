"""Bounded companions: clustering (C22), subgraph sampling (C23, C24), graphlet helpers (C25), drawing (C26)."""
from core import *
from collections import Counter
import math
from pymnet import cc as CC
from pymnet.sampling import esu as ESU, dumb as DUMB, reqs as REQS, creators as CRE
import importlib
from trans import dense
GM=importlib.import_module("pymnet.graphlets.graphlet_measures"); GL=importlib.import_module("pymnet.graphlets.graphlets")
from pymnet.visuals import drawassigners as DA, layouts as LA, drawnet as DN
import pymnet.transforms as T

def sortable(r):
    try: [sorted(x) for x in r.slices]; return True
    except TypeError: return False
def near(a,b,*msg):
    require(a is None and b is None or (a is not None and b is not None and close(float(a),float(b),1e-9)),*msg,"gives",a,"expected",b)

# ------------------------------------------------------------------ C22
def walks(A,C,F,s):
    """numbers of closed walks from s for the ten step sequences, from sparse dict-of-dict matrices"""
    def w(seq):
        d={s:1}
        for m in seq:
            n={}
            for x,c in d.items():
                for y in m.get(x,()): n[y]=n.get(y,0)+c
            d=n
        return d.get(s,0)
    a,c,f=A,C,F
    return tuple(w(q) for q in([a,a,a],[a,a,c,a,c],[a,c,a,a,c],[a,c,a,c,a],[a,c,a,c,a,c],[a,f,a],[a,f,c,a,c],[a,c,f,a,c],[a,c,f,c,a],[a,c,f,c,a,c]))
def aw(v,w1,w2,w3,vec):
    t1,t2,t3=v[0],v[1]+v[2]+v[3],v[4]; d1,d2,d3=v[5],v[6]+v[7]+v[8],v[9]
    c=[t/d if d else 0 for t,d in((t1,d1),(t2,d2),(t3,d3))]
    if vec: return tuple(c)
    if w3 is not None: return w1*c[0]+w2*c[1]+w3*c[2]
    t=t1*w1**3+t2*w1*w2*w2+t3*w2**3; d=d1*w1**3+d2*w1*w2*w2+d3*w2**3
    return t/d if d else 0
def chk(got,exp,*msg):
    if isinstance(exp,tuple):
        require(len(got)==len(exp),*msg)
        for i,(g,e) in enumerate(zip(got,exp)): near(g,e,*(msg+("component",i)))
    else: near(got,exp,*msg)
@register
class C22(Prop):
    quick=900; thorough=15000
    bound="seeded random undirected networks: weighted monoplex up to 8 nodes, multiplex up to 8 nodes and 4 layers (categorical couplings of weight one for the walk-based coefficients), node-aligned or not"
    def rand(self,rng,tier):
        if rng.random()<.3:
            s=rand_spec(rng,kind="ml",aspects=0,directed=False,noEdge=0,weights=rng.choice(["pos","one"]),selfedges=False,nops=rng.choice([0,2,6,12,25]))
            return {"spec":s,"mode":"mono"}
        s=rand_spec(rng,kind="mx",aspects=1,directed=False,noEdge=0,weights="one" if rng.random()<.7 else "pos",fic=rng.random()<.6,couplings=lambda g,a:[("categorical",1.0)],nops=rng.choice([0,3,8,15,30,50]))
        if s["ops"] and rng.random()<.3:
            r=ref(s)
            if len(r.slices[0])<7: s["ops"]=s["ops"]+[("set",a,b,1,0) for a,b in dense(rng,r)]
        ws=[o[3] for o in s["ops"] if o[0]=="set"]
        return {"spec":s,"mode":"aw" if all(w in(0,1) for w in ws) else "weighted","w":[rng.choice([.5,.25,1/3.,1,0]) for _ in range(3)]}
    def check(self,case):
        spec=case["spec"]; net=build(spec); r=ref(spec); before=snapshot(net)
        getattr(self,"do_"+case["mode"])(case,net,r)
        require(snapshot(net)==before,"network changed")
    def do_mono(self,case,net,r):
        W={}
        for (a,b),w in r.e.items(): W.setdefault(a[0],{})[b[0]]=w
        V=sorted(r.slices[0],key=repr); maxw=max([w for d in W.values() for w in d.values()] or [None],key=lambda x:-1 if x is None else x)
        U=object(); gz=[0,0]; vals=[]
        for n in V:
            N=W.get(n,{}); k=len(N); s=sum(N.values())
            P=[(j,h) for j in N for h in N if j!=h]; Tr=[(j,h) for j,h in P if h in W.get(j,{})]
            def same(f,exp,what):
                g=f(net,n,undefReturn=U)
                if exp is U: require(g is U,what,"of",n,"is",g,"expected undefined")
                else: near(g,exp,what,"of",n)
            same(CC.lcc,len(Tr)/len(P) if P else U,"lcc"); vals.append(len(Tr)/len(P) if P else None)
            zn=sum(N[j]*N[h]*W[j][h] for j,h in Tr); zd=sum(N[j]*N[h] for j,h in P); gz[0]+=zn; gz[1]+=zd
            same(CC.cc_zhang,zn/zd/maxw if P else U,"cc_zhang")
            same(CC.cc_onnela,sum((N[j]*N[h]*W[j][h])**(1/3.) for j,h in Tr)/(k*(k-1))/maxw if P else U,"cc_onnela")
            same(CC.cc_barrat,sum((N[j]+N[h])/2. for j,h in Tr)/(s*(k-1)) if P else U,"cc_barrat")
        near(CC.gcc_zhang(net),gz[0]/gz[1]/maxw if gz[1] else None,"gcc_zhang")
        v=[x for x in vals if x is not None]
        near(CC.gcc_from_lcc(net,CC.lcc),sum(v)/len(v) if v else None,"gcc_from_lcc")
    def do_weighted(self,case,net,r): self.common(case,net,r)
    def common(self,case,net,r):
        L=sorted(r.slices[1],key=repr); V=sorted(r.slices[0],key=repr); U=object()
        W={l:{} for l in L}; G={}
        for (a,b),w in r.e.items():
            W[a[1]].setdefault(a[0],{})[b[0]]=w; G.setdefault(a[0],{}); G[a[0]][b[0]]=G[a[0]].get(b[0],0)+w
        M={(a,l):set(W[l].get(a,())) for a in V for l in L}
        inl={l:(set(V) if r.fic else set(x[0] for x in r._nls if x[1]==l)) for l in L}
        unw=all(w==1 for w in r.e.values())
        anet=T.aggregate(net,1)
        tn,tu=0,0
        for n in V:
            for l in L:
                k=len(M[n,l]); tu+=k*(k-1)/2; tn+=sum(1 for j,h in itertools.combinations(M[n,l],2) if h in M[j,l])
            t,u=CC.cc_sequence(net,n)
            e=sorted((sum(1 for j,h in itertools.combinations(M[n,l],2) if h in M[j,l]),len(M[n,l])*(len(M[n,l])-1)/2) for l in L)
            require(sorted(zip(t,u))==e,"cc_sequence",n,t,u,"expected",e)
            if e and all(y for x,y in e): near(CC.cc_layers_avg(net,n),sum(x/y for x,y in e)/len(e),"cc_layers_avg",n)
            if sum(y for x,y in e): near(CC.cc_layers_wavg(net,n),sum(x for x,y in e)/sum(y for x,y in e),"cc_layers_wavg",n)
            # Barrett
            N=G.get(n,{}); num=sum(N[j]*N[h]*G[j][h] for j in N for h in N if j!=h and h in G[j])
            den=sum(N[j]*sum(max(W[l].get(n,{}).get(h,0),W[l].get(j,{}).get(h,0)) for h in V for l in L) for j in N)
            exp=num/den if den and len(N)>=2 else U
            for f in(CC.cc_barrett,CC.cc_barrett_optimized):
                g=f(net,n,anet,undefReturn=U)
                if exp is U: require(g is U,f.__name__,n,"is",g,"expected undefined")
                else: near(g,exp,f.__name__,n)
            if den: near(CC.cc_barrett_explicit(net,n,undefReturn=U),num/den,"cc_barrett_explicit",n)
            else: require(CC.cc_barrett_explicit(net,n,undefReturn=U) is U,"cc_barrett_explicit",n)
            # Brodka
            for th in(1,2,"all"):
                t=len(L) if th=="all" else th
                Nt=[v for v in V if v!=n and sum(1 for l in L if v in M[n,l])>=t]
                exp=sum(W[l].get(h,{}).get(v,0)+W[l].get(v,{}).get(h,0) for l in L for v in Nt for h in Nt)/float(2*len(Nt)*len(L)) if Nt and L else 0.0
                near(CC.lcc_brodka(net,n,threshold=th),exp,"lcc_brodka",n,th)
                if unw: near(CC.lcc_brodka(net,n,anet=anet,threshold=th),exp,"lcc_brodka with the aggregated network",n,th)
            # Criado
            nu=set(N); s=d=0
            for l in L:
                S=nu&inl[l]; s+=sum(1 for x in S for y in S if y in M[x,l]); d+=len(S)*(len(S)-1)
            for kw in({},{"anet":anet}):
                g=CC.lcc_criado(net,n,undefReturn=U,**kw)
                if d: near(g,s/d,"lcc_criado",n,kw)
                else: require(g is U,"lcc_criado",n,"is",g,"expected undefined")
            # Battiston
            if len(L)>=2:
                d=sum(len(M[n,l])**2 for l in L); s=sum(1 for a in L for b in L if a!=b for v in M[n,a] for h in M[n,a] if h in M[v,b])
                g=CC.lcc_battiston1(net,n,undefReturn=U)
                if d: near(g,s/d/(len(L)-1),"lcc_battiston1",n)
                else: require(g is U,"lcc_battiston1",n)
            d=sum(len(M[n,a])*len(M[n,b]) for a in L for b in L if a!=b)
            g=CC.lcc_battiston2(net,n,undefReturn=U)
            if len(L)>=3 and d:
                s=sum(1 for a in L for b in L if a!=b for c in L if c not in(a,b) for v in M[n,a] for h in M[n,b] if h in M[v,c])
                near(g,s/d/(len(L)-2),"lcc_battiston2",n)
            else: require(g is U,"lcc_battiston2",n)
        near(CC.gcc_super_graph_no_couplings(net),tn/tu if tu else None,"gcc_super_graph_no_couplings")
        E=r.edges(); nb={}
        for a,b in E: nb.setdefault(a,set()).add(b)
        sn=sum(1 for a in nb for x,y in itertools.combinations(nb[a],2) if y in nb[x]); sd=sum(len(x)*(len(x)-1)/2 for x in nb.values())
        near(CC.gcc_super_graph(net),sn/sd if sd else None,"gcc_super_graph")
        if len(V)*len(L)<=9:
            g=lambda a,b: E.get((a,b),0)
            nl=list(itertools.product(V,L))
            num=sum(g(a,b)*g(b,c)*g(c,a) for a in nl for b in nl for c in nl)
            den=sum(g(a,b)*g(b,c) for a in nl for b in nl for c in nl if c!=a)
            for f in(CC.gcc_contraction_m,CC.gcc_contraction_m_ct,CC.gcc_contraction_m_full): near(f(net),num/den if den else None,f.__name__)
            h=lambda a,b: G.get(a,{}).get(b,0)
            num=sum(h(a,b)*h(b,c)*h(c,a) for a in V for b in V for c in V); den=len(L)*sum(h(a,b)*h(b,c) for a in V for b in V for c in V if a!=c)
            for f in(CC.gcc_contraction_o2,CC.gcc_contraction_o_full): near(f(net),num/den if den else None,f.__name__)
    def do_aw(self,case,net,r):
        self.common(case,net,r)
        w1,w2,w3=case["w"]; L=sorted(r.slices[1],key=repr); V=sorted(r.slices[0],key=repr); nls=sorted(r.nls(),key=repr)
        A,C,F={},{},{}
        for a,b in r.e: A.setdefault(a,[]).append(b)
        for a in nls:
            for b in nls:
                if a!=b and a[0]==b[0]: C.setdefault(a,[]).append(b)
                if a!=b and a[1]==b[1]: F.setdefault(a,[]).append(b)
        vec={s:walks(A,C,F,s) for s in itertools.product(V,L)}
        add=lambda vs: tuple(sum(x) for x in zip(*vs)) if vs else (0,)*10
        tot=add(list(vec.values()))
        anet=T.aggregate(net,1)
        require(tuple(CC.elementary_cycles(net))==tot,"elementary cycles",tuple(CC.elementary_cycles(net)),"expected",tot)
        for n,l in vec:
            if not r.fic and (n,l) not in nls: continue
            v=vec[n,l]
            require(tuple(CC.cc_cycle_vector_bf(net,n,l))==v,"cycle vector (brute force)",n,l,CC.cc_cycle_vector_bf(net,n,l),"expected",v)
            if r.fic:
                require(tuple(CC.cc_cycle_vector_anet(net,n,l,anet))==v,"cycle vector (aggregated)",n,l,CC.cc_cycle_vector_anet(net,n,l,anet),"expected",v)
                if len(nls)<=12 and len(V)>1 and sortable(r):
                    g=tuple(float(x) for x in CC.cc_cycle_vector_adj(net,n,l))
                    require(g==v,"cycle vector (matrices)",n,l,g,"expected",v)
            for vv in(False,True): chk(CC.lcc_aw(net,n,l,w1,w2,w3,returnCVector=vv),aw(v,w1,w2,w3,vv),"lcc_aw",n,l)
            chk(CC.lcc_aw(net,n,l,w1,w2,None),aw(v,w1,w2,None,False),"lcc_aw with costs",n,l)
        for n in V:
            v=add([vec[n,l] for l in L])
            for kw in(({},{"anet":anet}) if r.fic else ({},)):
                require(tuple(CC.elementary_cycles(net,n,**kw))==v,"elementary cycles of",n,kw)
                for vv in(False,True): chk(CC.sncc_aw(net,n,w1,w2,w3,returnCVector=vv,**kw),aw(v,w1,w2,w3,vv),"sncc_aw",n,kw)
                chk(CC.sncc_aw(net,n,w1,w2,None,**kw),aw(v,w1,w2,None,False),"sncc_aw with costs",n,kw)
            near(CC.sncc_aw_layercost(net,n,w1,w2),aw(v,w1,w2,None,False),"sncc_aw_layercost",n)
            U=object(); t=(v[0],v[1]+v[2]+v[3],v[4]); d=(v[5],v[6]+v[7]+v[8],v[9])
            g=CC.sncc_aw_seplayers(net,n,w1,w2,w3,undefined=U)
            if any(x==0 and w>0 for x,w in zip(d,(w1,w2,w3))): require(g is U,"sncc_aw_seplayers",n,g)
            else: near(g,sum(w*a/b for w,a,b in zip((w1,w2,w3),t,d) if b),"sncc_aw_seplayers",n)
        for l in L:
            v=add([vec[n,l] for n in V])
            if V: require(tuple(CC.elementary_cycles(net,layer=l))==v,"elementary cycles of layer",l)
        for vv in(False,True): chk(CC.gcc_aw(net,w1,w2,w3,returnCVector=vv),aw(tot,w1,w2,w3,vv),"gcc_aw")
        chk(CC.gcc_aw(net,w1,w2,None),aw(tot,w1,w2,None,False),"gcc_aw with costs")
        if nls:
            chk(CC.avg_lcc_aw(net,w1,w2,w3),sum(aw(vec[x],w1,w2,w3,False) for x in nls)/len(nls),"avg_lcc_aw")
            chk(CC.avg_lcc_aw(net,w1,w2,returnCVector=True),tuple(sum(aw(vec[x],0,0,0,True)[i] for x in nls)/len(nls) for i in range(3)),"avg_lcc_aw vector")
        t=(tot[0],2*tot[1]+2*tot[2]+tot[3],2*tot[4]); d=(tot[5],2*tot[6]+2*tot[7]+tot[8],2*tot[9])
        c=[a/b if b else 0 for a,b in zip(t,d)]
        near(CC.gcc_moreno2_seplayers(net,w1,w2,w3),w1*c[0]+w2*c[1]+w3*c[2],"gcc_moreno2_seplayers")
        if r.fic and len(V)>1 and len(nls)<=12 and d[0] and d[1] and sortable(r):
            near(CC.gcc_moreno2(net,w1,w2,w3),w1*c[0]+w2*c[1]+(w3*c[2] if len(L)!=2 else 0),"gcc_moreno2")
            if len(L)!=2: chk(tuple(CC.gcc_aw_seplayers_adj(net,w1,w2,w3,returnCVector=True)),aw(tot,0,0,0,True),"gcc_aw_seplayers_adj")
            near(CC.gcc_aw_seplayers_adj(net,w1,w2,w3),aw(tot,w1,w2,w3,False),"gcc_aw_seplayers_adj")

# ------------------------------------------------------------------ C24
def components_ok(r,nl):
    if not nl: return None
    nb={}
    for a,b in r.edges(): nb.setdefault(a,set()).add(b); nb.setdefault(b,set()).add(a)
    nl=set(nl); st=[next(iter(nl))]; seen=set(st)
    while st:
        x=st.pop()
        for y in nb.get(x,()):
            if y in nl and y not in seen: seen.add(y); st.append(y)
    return seen==nl
def relaxed(r,V,L):
    nl=[x for x in r.nls() if x[0] in V and x[1] in L]
    return bool(nl) and components_ok(r,nl) and set(x[0] for x in nl)==set(V) and set(x[1] for x in nl)==set(L)
def qualifies(r,V,L,sizes,isec,le):
    if not relaxed(r,V,L): return False
    d={l:set(x[0] for x in r.nls() if x[0] in V and x[1]==l) for l in L}
    for perm in itertools.permutations(L):
        if [len(d[l]) for l in perm]!=list(sizes): continue
        k=0; ok=True
        for m in range(2,len(perm)+1):
            for c in itertools.combinations(perm,m):
                n=len(set.intersection(*[d[l] for l in c])); q=isec[k]; k+=1
                if q is not None and (n>q if le else n!=q): ok=False
        if ok: return True
    return False
def incl_excl(sizes,isec):
    n=sum(sizes); k=0
    for m in range(2,len(sizes)+1):
        for _ in itertools.combinations(sizes,m): n+=(-1)**(m+1)*isec[k]; k+=1
    return n
def sub_spec(rng,dense_p=.3,mx=False):
    s=rand_spec(rng,kind="mx" if mx else "ml",aspects=1,directed=False,noEdge=0,weights="one",selfedges=False,fic=rng.random()<.3,couplings=lambda g,a:[("none",)] ,nops=rng.choice([1,3,6,10,15,20]))
    return s
def derived(rng,r,V,L):
    """a requirement close to what the chosen part really has"""
    d=[set(x[0] for x in r.nls() if x[0] in V and x[1]==l) for l in L]
    order=list(range(len(L))); rng.shuffle(order); d=[d[i] for i in order]
    sizes=[max(1,len(x)) for x in d]; isec=[]
    for m in range(2,len(d)+1):
        for c in itertools.combinations(d,m): isec.append(len(set.intersection(*c)))
    x=rng.random()
    if x<.2 and isec: i=rng.randrange(len(isec)); isec[i]=max(0,isec[i]+rng.choice([-1,1]))
    elif x<.3: i=rng.randrange(len(sizes)); sizes[i]+=1
    elif x<.4 and len(sizes)>1: sizes.reverse()
    return sizes,isec
@register
class C24(Prop):
    quick=2500; thorough=40000
    bound="seeded random undirected one-aspect networks up to 8 nodes and 3 layers, random node and layer choices, requirements derived from the choice and perturbed"
    def rand(self,rng,tier):
        s=sub_spec(rng,mx=rng.random()<.3)
        if s["kind"]=="mx": s["couplings"]=[rng.choice([("none",),("categorical",1.0)])]
        r=ref(s)
        Vs=sorted(r.slices[0],key=repr); Ls=sorted(r.slices[1],key=repr)
        if not Vs or not Ls: return {"spec":s,"sizes":[1],"isec":[],"V":["?"],"L":["?"],"how":"strict"}
        V=rng.sample(Vs,rng.randint(1,min(4,len(Vs)))); L=rng.sample(Ls,rng.randint(1,len(Ls)))
        if rng.random()<.08: V.append("?absent")
        sizes,isec=derived(rng,r,V,L)
        how=rng.choice(["strict","strict","strictn","less_or_equal","relaxed","relaxed","lengths","none","none"])
        if how=="none": isec=[None if rng.random()<.5 else x for x in isec]
        return {"spec":s,"sizes":sizes,"isec":isec,"V":V,"L":L,"how":how}
    def check(self,case):
        r=ref(case["spec"]); net=build(case["spec"]); sizes,isec,V,L,how=[case[k] for k in("sizes","isec","V","L","how")]
        before=snapshot(net); c0=repr((sizes,isec,V,L))
        if how=="lengths":
            if None not in isec: require(REQS.default_calculate_required_lengths(sizes,isec)==(incl_excl(sizes,isec),len(sizes)),"required lengths",REQS.default_calculate_required_lengths(sizes,isec))
        elif how=="relaxed":
            require(bool(REQS.relaxed_check_reqs(net,V,L))==relaxed(r,V,L),"relaxed_check_reqs is",REQS.relaxed_check_reqs(net,V,L))
        elif how in("strict","strictn","none","less_or_equal"):
            kw={}
            if how!="strict": kw={"nnodes":len(V),"nlayers":len(L)}
            if how=="less_or_equal": kw["intersection_type"]=how
            if how=="strict" and (incl_excl(sizes,isec)!=len(V) or len(sizes)!=len(L)):
                try: REQS.default_check_reqs(net,V,L,sizes,isec); ok=False
                except AssertionError: ok=True
                require(ok,"wrong number of nodes or layers accepted")
            else:
                exp=qualifies(r,V,L,sizes,isec,how=="less_or_equal"); got=REQS.default_check_reqs(net,V,L,sizes,isec,**kw)
                require(bool(got)==exp,"default_check_reqs is",got,"expected",exp)
        try: REQS.default_check_reqs(net,V,L,sizes,isec,len(V),len(L),"something"); ok=False
        except TypeError: ok=True
        require(ok,"unknown intersection type accepted")
        require(snapshot(net)==before and repr((sizes,isec,V,L))==c0,"parameters changed")

# ------------------------------------------------------------------ C23
@register
class C23(Prop):
    quick=1000; thorough=15000; timeout=60
    bound="seeded random undirected one-aspect networks up to 8 nodes and 3 layers, all kinds of size requirements"
    def rand(self,rng,tier):
        s=sub_spec(rng,mx=rng.random()<.15); r=ref(s)
        Vs=sorted(r.slices[0],key=repr); Ls=sorted(r.slices[1],key=repr)
        if not Vs or not Ls: return {"spec":s,"req":{"nnodes":1,"nlayers":1},"seed":1,"p":None}
        if len(Vs)>6: s["ops"]=[o for o in s["ops"] if o[0]!="add_node"]; r=ref(s); Vs=sorted(r.slices[0],key=repr); Ls=sorted(r.slices[1],key=repr)
        if not Vs or not Ls: return {"spec":s,"req":{"nnodes":1,"nlayers":1},"seed":1,"p":None}
        V=rng.sample(Vs,rng.randint(1,min(4,len(Vs)))); L=rng.sample(Ls,rng.randint(1,len(Ls)))
        x=rng.random(); sizes,isec=derived(rng,r,V,L)
        if x<.45: req={"nnodes":len(V),"nlayers":len(L)}
        elif x<.65: req={"sizes":sizes,"intersections":isec}
        elif x<.75: req={"sizes":sizes,"intersections":isec,"nnodes":len(V),"intersection_type":"less_or_equal"}
        elif x<.88 and isec: req={"sizes":sizes,"intersections":[None if rng.random()<.6 else y for y in isec[:-1]]+[None],"nnodes":len(V)}
        elif isec: req={"sizes":sizes,"intersections":isec[-1],"nnodes":len(V)}
        else: req={"nnodes":len(V),"nlayers":len(L)}
        return {"spec":s,"req":req,"seed":rng.randrange(99),"p":rng.choice([None,"zero","half","zero","half"])}
    def check(self,case):
        r=ref(case["spec"]); net=build(case["spec"]); req=case["req"]; before=snapshot(net)
        le=req.get("intersection_type")=="less_or_equal"
        if "sizes" in req:
            sizes=req["sizes"]; isec=req["intersections"]
            if isinstance(isec,int): isec=[None]*(2**len(sizes)-len(sizes)-2)+[isec]
            nn=req["nnodes"] if "nnodes" in req else incl_excl(sizes,isec); nl=len(sizes)
            if nn<1: return
            q=lambda V,L: qualifies(r,V,L,sizes,isec,le)
        else:
            nn,nl=req["nnodes"],req["nlayers"]; q=lambda V,L: relaxed(r,V,L)
        exp=set((frozenset(V),frozenset(L)) for V in itertools.combinations(sorted(r.slices[0],key=repr),nn) for L in itertools.combinations(sorted(r.slices[1],key=repr),nl) if q(V,L))
        def run(f,**kw):
            out=[]; f(net,out,**dict(req,**kw)); res=[(frozenset(a),frozenset(b)) for a,b in out]
            require(all(len(a)==len(set(a))==nn and len(b)==len(set(b))==nl for a,b in out),"result of wrong size",out)
            require(len(res)==len(set(res)),f.__name__,kw,"reports a subgraph twice",out)
            return set(res)
        g=run(DUMB.dumb_enumeration)
        require(g==exp,"dumb_enumeration misses",exp-g,"adds",g-exp)
        for cp in(True,False):
            g=run(ESU.sample_multilayer_subgraphs_esu,copy_network=cp,seed=case["seed"])
            require(g==exp,"sampler with copy_network =",cp,"misses",exp-g,"adds",g-exp)
        got=[]; ESU.sample_multilayer_subgraphs_esu(net,lambda x:got.append(x),seed=case["seed"],**req)
        require(set((frozenset(a),frozenset(b)) for a,b in got)==exp and len(got)==len(exp),"sampler with a callable",got)
        d=nn+nl-1
        if case["p"]:
            p=[1]*d
            if case["p"]=="zero": p[case["seed"]%d]=0
            else: p=[[.5,.9,1][(case["seed"]+i)%3] for i in range(d)]
            g=run(ESU.sample_multilayer_subgraphs_esu,p=p,seed=case["seed"],copy_network=bool(case["seed"]%2))
            require(g<=exp and (case["p"]!="zero" or not g),"sampler with p =",p,"gives",g,"of",exp)
        require(snapshot(net)==before,"network changed")

# ------------------------------------------------------------------ C25
@register
class C25(Prop):
    quick=2500; thorough=40000
    bound="all partitions of up to 6 elements into blocks of up to 4, plus seeded random matrices up to 6x6, orbit tables and networks up to 8 nodes"
    def fixed(self,tier):
        for n in range(0,7):
            for k in range(1,5): yield {"mode":"part","n":n,"r":k}
        for n in range(0,5): yield {"mode":"lc","n":n}
    def rand(self,rng,tier):
        m=rng.choice(["gcd","orb","touch","touch"])
        if m=="gcd":
            n=rng.randint(0,6); k=rng.randint(1,4); c=rng.randint(n,n+2) if rng.random()<.2 else n
            return {"mode":m,"ms":[[[rng.choice([0,1,-1,.5,rng.random()]) for _ in range(c)] for _ in range(n)] for _ in range(k)]}
        if m=="orb":
            n=rng.randint(2,4); t={}
            for k in range(2,n+1):
                t[k]=[]
                for j in range(rng.randint(0,3)):
                    cl=[rng.randint(0,i) for i in range(k)]
                    for i in range(k): cl[i]=cl[cl[i]]
                    t[k].append(cl)
            return {"mode":m,"n":n,"t":t}
        return {"mode":m,"spec":rand_spec(rng,aspects=1,weights="one",nops=rng.choice([2,5,9,14])),"k":rng.randint(1,4)}
    def check(self,case): getattr(self,"do_"+case["mode"])(case)
    def do_part(self,case):
        n,k=case["n"],case["r"]
        def allp(S,k):
            S=list(S)
            if not S: return [frozenset()]
            out=[]
            for c in itertools.combinations(S[1:],k-1):
                rest=[x for x in S[1:] if x not in c]
                for p in allp(rest,k): out.append(p|{frozenset((S[0],)+c)})
            return out
        S=list(range(n))
        if n%k==0:
            g=[frozenset(frozenset(b) for b in p) for p in GL.partitions(S,k)]
            require(Counter(g)==Counter(allp(S,k)),"partitions",n,k,g)
            require(all(len(b)==k==len(set(b)) for p in GL.partitions(set(S),k) for b in p),"block sizes")
        exp=Counter()
        for m in range(n,-1,-k):
            if m==0: exp.update((p,frozenset()) for p in allp(S,k))
            elif m!=k:
                for R in itertools.combinations(S,m): exp.update((p,frozenset(R)) for p in allp([x for x in S if x not in R],k))
        got=Counter()
        for p in GL.partitions_with_remainder(S,k):
            p=list(p); big=[b for b in p if len(b)!=k]; blk=[b for b in p if len(b)==k]
            require(len(big)<=1 and (not big or p[-1]==big[0]),"remainder",p)
            got[(frozenset(frozenset(b) for b in blk),frozenset(big[0]) if big else frozenset())]+=1
        require(got==exp,"partitions with remainder",n,k,got)
    def do_lc(self,case):
        L=["l%d"%i for i in range(case["n"])]
        g=[frozenset(x) for x in GL.layer_combinations(L)]
        require(Counter(g)==Counter(frozenset(c) for k in range(1,len(L)+1) for c in itertools.combinations(L,k)),"layer combinations",g)
    def do_gcd(self,case):
        import numpy
        ms=[numpy.array(m,dtype=float).reshape(len(m),len(m[0]) if m else 0) for m in case["ms"]]; keep=[m.copy() for m in ms]
        D=GM.GCD_matrix(ms); require(len(D)==len(ms),"matrix size")
        for i,a in enumerate(ms):
            require(len(D[i])==len(ms),"matrix size")
            for j,b in enumerate(ms):
                e=math.sqrt(sum((a[x][y]-b[x][y])**2 for x in range(len(a)) for y in range(len(a[x])) if y>x))
                near(GM.GCD(a,b),e,"GCD"); near(D[i][j],e,"GCD_matrix",i,j)
        require(all((x==y).all() for x,y in zip(ms,keep)),"matrices changed")
        if ms:
            try: GM.GCD(ms[0],numpy.zeros((9,9))); ok=False
            except AssertionError: ok=True
            require(ok,"different shapes accepted")
    def do_orb(self,case):
        n,t=case["n"],case["t"]; nets={}; auts={}
        for k in t:
            nets[k]=[]
            for j,cl in enumerate(t[k]):
                net=pymnet.MultiplexNetwork(couplings=["categorical"]); net.add_layer(0)
                for i,c in enumerate(cl): net.add_node(i); auts[k,j,i]=c
                nets[k].append(net)
        o=GM.orbit_numbers(n,nets,auts); exp=set((k,j,c) for k in t for j,cl in enumerate(t[k]) for c in cl)
        require(set(o)==exp,"orbits",set(o),"expected",exp)
        require(sorted(o.values())==list(range(len(exp))),"numbers",o)
        L=GM.ordered_orbit_list(o)
        require(len(L)==len(exp) and all(o[x]==i for i,x in enumerate(L)),"ordered list",L)
    def do_touch(self,case):
        r=ref(case["spec"]); net=build(case["spec"]); before=snapshot(net)
        nb={}
        for a,b in r.edges(): nb.setdefault(a[0],set()).add(b[0]); nb.setdefault(b[0],set()).add(a[0])
        for v in sorted(r.slices[0],key=repr):
            lev={frozenset([v])}; exp=set()
            for _ in range(case["k"]-1):
                lev=set(p|{y} for p in lev for x in p for y in nb.get(x,()) if y not in p); exp|=lev
            g=GM.touching_orbit_nodes(v,net,case["k"])
            require(set(map(frozenset,g))==exp and len(g)==len(exp),"touching nodes of",v,g,"expected",exp)
        require(snapshot(net)==before,"network changed")

# ------------------------------------------------------------------ C26
def fdouble(x): return x*2 if not isinstance(x,(tuple,str)) else x
def fshow(x): return "v:%r"%(x,)
FN={"double":fdouble,"show":fshow}
@register
class C26(Prop):
    quick=4000; thorough=60000
    bound="seeded random one-aspect networks, all property assigners with every documented rule and modifier, random coordinate sets and all layouts"
    def rand(self,rng,tier):
        x=rng.random()
        if x<.55:
            kind=rng.choice(["layer","node","nodelabel","nodesize","edge","edge"])
            rules={"layer":["order","name"],"node":["order","name","degree","layer"],"nodelabel":["order","name","degree","nodename"],"nodesize":["order","degree","scaled"],"edge":["order","name","edgetype","edgeweight","layer","sourcedestweight"]}[kind]
            rule=rng.choice(rules+[None,None,"nonsense"])
            pr={}
            if rule:
                pr["rule"]=rule
                if rule=="order": pr["sequence"]=[rng.choice([1,2,"a",.5]) for _ in range(rng.randint(1,4))]
                if rule=="edgetype": pr.update({"intra":rng.choice(["-",1]),"inter":rng.choice([":",2])})
                if rule=="scaled" and rng.random()<.5: pr["scalecoeff"]=rng.choice([.2,2,1])
                num=rule in("degree","scaled","edgeweight")
                if rng.random()<.3: pr["f"]=rng.choice(["double","show"] if not num else ["double","double","show"])
                if num and pr.get("f")!="show":
                    if rng.random()<.4: pr["scaleby"]=rng.choice([2,.5,-1])
                    if kind=="nodesize" and rng.random()<.4: pr["propscale"]=rng.choice([.2,3])
                    elif rng.random()<.2: pr["colormap"]="jet"
                if rule in("name","layer") and kind in("layer","node") and "f" not in pr and rng.random()<.3: pr["mapping"]=True
            return {"mode":"assign","spec":rand_spec(rng,aspects=1,noEdge=0,weights="pos",nops=rng.choice([3,6,12]),tuplelayers=False),"kind":kind,"rule":pr,"seed":rng.randrange(10**6),"default":rng.choice([None,0,"d",3.5])}
        if x<.85:
            n=rng.randint(1,7); v=lambda: rng.choice([0,1,-3,2.5,rng.random(),rng.uniform(-100,100)])
            c={i:(v(),v()) for i in range(n)}
            if rng.random()<.15: y=v(); c={i:(c[i][0],y) for i in c}
            if rng.random()<.4: return {"mode":"fig","c":{i:(c[i][0],c[i][1],rng.choice([0,.04,.2,1])) for i in c},"pad":rng.choice([.05,.5,0.01])}
            return {"mode":"norm","c":c,"box":(rng.choice([1,2,.5,10]),rng.choice([1,3,.25])),"inplace":rng.random()<.5}
        while True:
            s=rand_spec(rng,kind=rng.choice(["mx","mx","ml"]),aspects=1,directed=False,noEdge=0,weights="pos",nops=rng.choice([2,5,9]),selfedges=False)
            if not any(isinstance(n,tuple) for n in ref(s).slices[0]): break
        return {"mode":"layout","spec":s,"layout":rng.choice(["circular","shell","spring","random","fr","spectral","nope"]),"aligned":rng.random()<.6,"seed":rng.randrange(99)}
    def check(self,case): getattr(self,"do_"+case["mode"])(case)
    def do_assign(self,case):
        r=ref(case["spec"]); net=build(case["spec"]); rng=random.Random(case["seed"]); before=snapshot(net)
        kind=case["kind"]; rule=dict(case["rule"]); E=r.edges()
        if "f" in rule: rule["f"]=FN[rule["f"]]
        if kind=="layer": items=sorted(r.slices[1],key=repr); cl=[DA.LayerColorAssigner,DA.LayerLabelAssigner,DA.LayerOrderAssigner,DA.LayerAlphaAssigner]
        elif kind=="node": items=sorted(r.nls(),key=repr); cl=[DA.NodeColorAssigner,DA.NodeLabelSizeAssigner]
        elif kind=="nodelabel": items=sorted(r.nls(),key=repr); cl=[DA.NodeLabelAssigner]
        elif kind=="nodesize": items=sorted(r.nls(),key=repr); cl=[DA.NodeSizeAssigner]
        else: items=sorted(E,key=repr); cl=[DA.EdgeColorAssigner,DA.EdgeWidthAssigner,DA.EdgeStyleAssigner,DA.EdgeZAssigner,DA.EdgeAlphaAssigner]
        cls=rng.choice(cl)
        if "mapping" in rule:
            for it in items: rule[(it if rule["rule"]=="name" else it[1])]="m%r"%(it if rule["rule"]=="name" else it[1],)
            if any(k in rule and k in("rule","mapping") for k in items): return
        pd={}
        for it in items:
            if rng.random()<.3: pd[it]=rng.choice(["u",0,False,1.5,"",(1,2)])
        keep=(repr(pd),repr(rule))
        A=cls(pd,rule,case["default"],net); k=0
        rng.shuffle(items)
        for it in items+items[:2]:
            if it in pd: exp=pd[it]
            elif kind=="edge" and not r.directed and (it[1],it[0]) in pd: exp=pd[(it[1],it[0])]
            elif not rule: exp=case["default"]
            elif rule["rule"]=="nonsense":
                try: A[fresh(it)]; ok=False
                except Exception: ok=True
                require(ok,"unknown rule accepted"); continue
            else:
                q=rule["rule"]
                if q=="order": exp=rule["sequence"][k%len(rule["sequence"])]; k+=1
                elif q=="name": exp=it
                elif q=="degree": exp=len(exp_nbrs(r,it,"total"))
                elif q=="layer" and kind!="edge": exp=it[1]
                elif q=="layer": exp=it[0][1] if it[0][1]==it[1][1] else "interlayer"
                elif q=="nodename": exp=it[0]
                elif q=="scaled": exp=rule.get("scalecoeff",1.0)/math.sqrt(len(r.slices[0]))
                elif q=="edgetype": exp=rule["intra"] if it[0][1]==it[1][1] else rule["inter"]
                elif q=="edgeweight": exp=E[it]
                elif q=="sourcedestweight": exp=(it[0],it[1],E[it])
                if "propscale" in rule: exp=exp*rule["propscale"]/math.sqrt(len(r.slices[0]))
                if "f" in rule: exp=rule["f"](exp)
                if rule.get("mapping"): exp=rule[exp]
                if "scaleby" in rule: exp=exp*rule["scaleby"]
                if "colormap" in rule:
                    import matplotlib; exp=matplotlib.colormaps[rule["colormap"]](exp)
            g=A[fresh(it)]
            require(close(g,exp) if isinstance(exp,float) and isinstance(g,float) else (g==exp and type(g)==type(exp)),cls.__name__,"of",it,"is",repr(g),"expected",repr(exp))
        require((repr(pd),repr(rule))==keep,"dictionaries changed"); require(snapshot(net)==before,"network changed")
    def do_norm(self,case):
        c=dict(case["c"]); box=case["box"]; src=dict(c)
        g=LA.normalize_coordinates(c,box,inplace=case["inplace"])
        require((g is c) if case["inplace"] else (g is not c and c==src),"in place flag")
        require(set(g)==set(src),"nodes")
        for d in(0,1):
            lo=min(x[d] for x in src.values()); hi=max(x[d] for x in src.values())
            for n in src:
                e=box[d]*(src[n][d]-lo)/(hi-lo) if hi!=lo else 0.0
                require(close(g[n][d],e,1e-7),"coordinate",d,"of",n,"is",g[n][d],"expected",e)
            if hi!=lo: require(close(max(x[d] for x in g.values()),box[d]) and close(min(x[d] for x in g.values()),0),"span")
    def do_fig(self,case):
        nf=DN.NetFigure(padding=case["pad"])
        class L(object): net=nf
        ns={i:DN.Node(L,x,y,size=s) for i,(x,y,s) in case["c"].items()}
        nf.normalize_coords()
        for d in(0,1):
            lo=min(v[d]-v[2]/2. for v in case["c"].values()); hi=max(v[d]+v[2]/2. for v in case["c"].values())
            for i,v in case["c"].items():
                g=(ns[i].x,ns[i].y)[d]; e=(v[d]-lo+case["pad"])/(hi-lo+2*case["pad"])
                require(close(g,e,1e-7),"coordinate",d,"of",i,"is",g,"expected",e)
                require(-1e-9<=g<=1+1e-9,"outside of the box")
    def do_layout(self,case):
        r=ref(case["spec"]); net=build(case["spec"]); before=snapshot(net)
        if not r.slices[0] or not r.slices[1]: return
        lay,al=case["layout"],case["aligned"]
        if lay=="spectral" and len(r.slices[0])<3: return
        if lay=="nope" or (not al and lay not in("random","fr")):
            try: LA.get_layout(lay,net,alignedNodes=al); ok=False
            except Exception: ok=True
            require(ok,"unknown layout accepted"); return
        if lay=="fr" and not al: # coordinates of node-layers
            if r.fic: return
            c=LA.get_fruchterman_reingold_multilayer_layout(net,alignedNodes=False,iterations=5)
            require(set(c)==r.nls(),"layout node-layers",set(c),"expected",r.nls())
        else:
            if lay=="fr" and (not r.fic and any(True for n in r.slices[0] if not any(x[0]==n for x in r._nls))): return
            nc,nlc=LA.get_layout(lay,net,alignedNodes=al)
            if al: require(set(nc)==r.slices[0],"layout nodes",set(nc),"expected",r.slices[0])
            else: require(set(nlc)==r.nls(),"layout node-layers",set(nlc),"expected",r.nls())
            c=nc if al else nlc
        for n in c: require(len(c[n])==2 and all(math.isfinite(float(x)) for x in c[n]),"coordinates of",n,c[n])
        if lay in("fr","random"):
            for n in c: require(all(-1e-9<=x<=1+1e-9 for x in c[n]),"coordinates outside the box",c[n])
        require(snapshot(net)==before,"network changed")
