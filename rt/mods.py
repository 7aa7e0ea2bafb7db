"""Bounded companions: diagnostics (C15,C16), models (C17,C18), input/output (C19), networkx (C20), isomorphism (C21)."""
from core import *
from collections import Counter
import json as _json, tempfile, shutil, math
import heapq
D=pymnet.diagnostics; M=pymnet.models; IO=pymnet.netio; T=pymnet.transforms

@register
class C15(Prop):
    quick=2000
    bound="seeded random networks with 0-2 aspects; overlap degrees for unweighted undirected multiplex networks with at most 4 layers"
    def rand(self,rng,tier):
        if rng.random()<.35:
            s=rand_spec(rng,kind="mx",aspects=1,directed=False,noEdge=0,weights="one",fic=rng.random()<.7,couplings=lambda g,a:[g.choice([("none",),("categorical",1.0)])],nops=rng.choice([2,5,12,25]))
            return {"spec":s,"overlap":True}
        return {"spec":rand_spec(rng,weights="num"),"overlap":False}
    def check(self,case):
        spec=case["spec"]; r=ref(spec); net=build(spec); E=r.edges(); before=snapshot(net)
        deg=lambda n: len(exp_nbrs(r,n,"total"))
        def chk(got,nodes,deg,key,what):
            nd={key(n):deg(n) for n in nodes}
            if got[0]=="nodes": require(dict(got[1])==nd,what,"degrees",got[1],"expected",nd)
            else: require(dict(got[1])==dict(Counter(nd.values())),what,"distribution",got[1],"expected",dict(Counter(nd.values())))
        key=lambda n: n if r.aspects else n[0]
        chk(("nodes",D.degs(net,degstype="nodes")),r.nls(),deg,key,"network")
        chk(("distribution",D.degs(net)),r.nls(),deg,key,"network")
        try: D.degs(net,degstype="?"); ok=False
        except Exception: ok=True
        require(ok,"invalid degree type accepted")
        N=len(r.nls()); pos=N*(N-1)/(1 if r.directed else 2); m=len(E) if r.directed else len(set(frozenset(k) for k in E))
        require(close(D.density(net),m/pos if pos and r.slices[0] else 0),"density",D.density(net),"expected",m,"/",pos)
        if r.kind=="mx":
            dn=D.multiplex_density(net); dd=D.multiplex_degs(net); de=D.multiplex_degs(net,degstype="nodes")
            combos=list(itertools.product(*r.slices[1:])); k=lambda t: t[0] if r.aspects==1 else t
            require(set(dn)==set(dd)==set(de)==set(map(k,combos)),"layers",set(dn))
            for t in combos:
                A={(a[0],b[0]):w for (a,b),w in r.e.items() if a[1:]==t}
                nodes=r.slices[0] if r.fic else set(n[0] for n in r._nls if n[1:]==t)
                dg=lambda n: len(set(b for a,b in A if a==n)|set(a for a,b in A if b==n))
                chk(("nodes",de[k(t)]),nodes,dg,lambda n:n,"layer %r"%(t,)); chk(("distribution",dd[k(t)]),nodes,dg,lambda n:n,"layer %r"%(t,))
                N=len(nodes); pos=N*(N-1)/(1 if r.directed else 2); m=len(A) if r.directed else len(A)/2
                require(close(dn[k(t)],m/pos if pos else 0),"density of layer",t,dn[k(t)],"expected",m,"/",pos)
        if case["overlap"] and len(r.slices[1])<=4:
            od=D.overlap_degs(net)
            combs=[frozenset(c) for k in range(1,len(r.slices[1])+1) for c in itertools.combinations(r.slices[1],k)]
            require(sorted(map(repr,(sorted(x,key=repr) for x in map(frozenset,od))))==sorted(map(repr,(sorted(x,key=repr) for x in combs))),"layer combinations",list(od))
            for c in od:
                require(len(set(c))==len(c),"combination",c)
                exp={n:0 for n in r.slices[0]}
                for i in r.slices[0]:
                    for j in r.slices[0]:
                        if i!=j and frozenset(l for l in r.slices[1] if ((i,l),(j,l)) in r.e)==frozenset(c): exp[i]+=1
                for n in od[c]: require(od[c][n]==exp[n],"overlap degree",c,n,od[c][n],"expected",exp[n])
                require(all(exp[n]==0 for n in exp if n not in od[c]),"overlap degrees missing",c)
                if r.fic: require(set(od[c])==r.slices[0],"overlap nodes",c)
        require(snapshot(net)==before,"network changed")

def dist(E,src):
    d={}; q=[(0,i,s) for i,s in enumerate(src)]; out={}
    for (a,b),w in E.items(): out.setdefault(a,[]).append((b,w))
    heapq.heapify(q); c=len(q)
    while q:
        x,_,n=heapq.heappop(q)
        if n in d: continue
        d[n]=x
        for b,w in out.get(n,()): c+=1; heapq.heappush(q,(x+w,c,b))
    return d
@register
class C16(Prop):
    quick=2500
    bound="seeded random networks with positive weights, 0-2 aspects, up to 30 edges; random source sets and pruned aspects"
    def rand(self,rng,tier):
        s=rand_spec(rng,kind=rng.choice(["ml","ml","mx"]),noEdge=[0,0,-1],weights="pos",sortable=True,aspects=None,couplings=lambda g,a:[g.choice([("none",),("categorical",1.0),("ordinal",2.0),("categorical",0.5)]) for _ in range(a)],nops=rng.choice([2,4,8,15,25,40]))
        r=ref(s); g=sorted(r.nls(),key=repr)
        if not g: return self.rand(rng,tier)
        src=[rng.choice(g) for _ in range(rng.choice([1,1,2,3]))]
        pr=[a for a in range(r.aspects+1) if rng.random()<.4]
        return {"spec":s,"src":src,"prune":pr,"form":rng.randrange(2)}
    def valid(self,case):
        return set(case["src"])<=ref(case["spec"]).nls()
    def check(self,case):
        spec=case["spec"]; r=ref(spec); net=build(spec); E=r.edges(); before=snapshot(net); src=case["src"]
        k=lambda n: n if r.aspects else n[0]; un=lambda x: x if r.aspects else (x,)
        S=[k(n) for n in src]; S0=list(S)
        d,f=D.dijkstra(net,S if case["form"] else tuple(S))
        require(S==S0,"source list changed")
        x=dist(E,src); got={un(n):v for n,v in d.items()}
        require(set(got)==set(x),"reached",set(got),"expected",set(x))
        for n in x: require(close(got[n],x[n]),"distance of",n,"is",got[n],"expected",x[n])
        F={(a,b):w for (a,b),w in E.items() if a in x and b in x and x[a]+w==x[b]}
        near={(a,b) for (a,b),w in E.items() if a in x and b in x and close(x[a]+w,x[b])}
        self.forest(f,F,near,E,r,src,"forest")
        for s in src: require(eqv(readW(f,s,s),r.W(s,s)),"source entry",s,readW(f,s,s))
        if case["prune"] and len(case["prune"])<=r.aspects and r.aspects>0:
            pr=case["prune"]; ps=[tuple(None if a in pr else v for a,v in enumerate(s)) for s in src]
            full=[n for n in sorted(r.grid(),key=repr) if any(all(p is None or p==v for p,v in zip(q,n)) for q in ps) and exp_nbrs(r,n,"total")]
            P=lambda n: tuple(v for a,v in enumerate(n) if a not in pr)
            x=dist(E,full); nd={}
            for n,v in x.items(): nd[P(n)]=min(v,nd.get(P(n),v))
            g,nf=D.dijkstra_mlayer_prune(net,list(ps),list(pr))
            require(set(g)==set(nd),"pruned reached",set(g),"expected",set(nd))
            for n in nd: require(close(g[n],nd[n]),"pruned distance of",n,"is",g[n],"expected",nd[n])
            F={(a,b) for (a,b),w in E.items() if a in x and b in x and x[a]+w==x[b]}
            need=set(n for n in x if x[n]==nd[P(n)]); todo=list(need); keep=set()
            while todo:
                b=todo.pop()
                for (a,c) in F:
                    if c==b and (a,c) not in keep:
                        keep.add((a,c))
                        if a not in need: need.add(a); todo.append(a)
            near={(a,b) for (a,b),w in E.items() if a in x and b in x and close(x[a]+w,x[b])}
            if near==F: self.forest(nf,{k:E[k] for k in keep},near,E,r,full,"pruned forest")
        require(snapshot(net)==before,"network changed")
    def forest(self,f,F,near,E,r,src,what):
        L=set()
        for e in f.edges:
            a,b=tuple(e[:-1][0::2]),tuple(e[:-1][1::2])
            if a==b and a in src: continue
            require((a,b) in near,what,"contains",a,b,"which is on no shortest path")
            require(eqv(e[-1],E[(a,b)]),what,"weight of",a,b,"is",e[-1]); L.add((a,b))
        require(set(F)<=L and (L==set(F) or near!=set(F)),what,"edges",L,"expected",set(F))

class Draws(object):
    """replaces random.random by a prescribed sequence, then the real generator"""
    def __init__(s,seq): s.seq=list(seq)
    def __enter__(s):
        s.old=random.random
        if s.seq is not None:
            def f():
                return s.seq.pop(0) if s.seq else s.old()
            random.random=f
    def __exit__(s,*a): random.random=s.old
def simple(A,what,weight=1):
    L=list(A.edges)
    for e in L:
        require(e[0]!=e[1],what,"self-edge",e)
        require(weight is None or e[2]==weight,what,"edge weight",e)
    return L
def layers_arg(rng): return rng.choice([1,2,3,["a","b"],("x",),[5,3,4],range(2,4)])
@register
class C17(Prop):
    quick=1500
    bound="all sizes 2-9 and layer lists for the full models, sizes up to 60 and all edge counts for small sizes for the random models, seeded and adversarial random draws"
    def fixed(self,tier):
        for n in range(2,10):
            for l in (None,1,2,3,["a"],["a","b"],[3,1,2]): yield {"m":"full","n":n,"l":l}
            for l in (1,2,3,["a","b"]):
                if n<7: yield {"m":"full_multilayer","n":n,"l":l}
        for n in range(1,8):
            for e in range(n*(n-1)//2+1): yield {"m":"er","n":n,"p":None,"e":e,"draws":[]}
            for p in (0.0,1.0,0.5,0,1,1e-9,1-1e-9):
                for dr in ([],[0.0]*60,[1-2**-53]*60,[0.0,1-2**-53]*30,[.5]*60): yield {"m":"er","n":n,"p":p,"e":None,"draws":dr}
        for n in (20,45,60): yield {"m":"er","n":n,"p":None,"e":n*(n-1)//2,"draws":[]}
        for n in range(2,12):
            for ms in ([1],[2],[3,1],[0,2],[1,1,4]): yield {"m":"ba","n":n,"ms":ms}
    def rand(self,rng,tier):
        m=rng.choice(["erl","erl","erp","er_ml","ovl","ba","er"]); dr=rng.choice([[],[],[0.0]*20,[1-2**-53]*10,[rng.random() for _ in range(5)]])
        if m=="er": return {"m":"er","n":rng.randint(1,40),"p":rng.random(),"e":None,"draws":dr}
        if m in("erl","erp"):
            k=rng.choice([1,2,3]); lists=rng.random()<.6 or m=="erp"
            names=rng.choice([list(range(12)),list("abcdefgh")])
            nodes=[rng.sample(names,rng.randint(1,len(names))) for _ in range(k)] if lists else rng.randint(1,12)
            sz=[len(x) for x in nodes] if lists else [nodes]*k
            if m=="erp": return {"m":m,"nodes":nodes,"p":[rng.choice([0.0,1.0,rng.random()]) for _ in range(k)],"e":None,"draws":dr}
            if rng.random()<.5:
                p=[rng.choice([0.0,1.0,rng.random(),0.3]) for _ in range(k)] if not lists or rng.random()<.7 else rng.choice([0.0,1.0,.4])
                return {"m":m,"nodes":nodes,"p":p,"e":None,"draws":dr}
            mx=[s*(s-1)//2 for s in sz]
            e=[rng.randint(0,x) for x in mx] if not lists or rng.random()<.7 else rng.randint(0,min(mx))
            return {"m":m,"nodes":nodes,"p":None,"e":e,"draws":dr}
        if m=="er_ml": return {"m":m,"n":rng.randint(2,6),"l":layers_arg(rng),"p":rng.choice([0,1,.5,rng.random()]),"w":rng.random()<.3,"draws":dr}
        if m=="ba": return {"m":"ba","n":rng.randint(2,30),"ms":[rng.randint(0,4) for _ in range(rng.randint(1,3))]}
        L=rng.choice([2,3]); n=rng.randint(8,14); edges=rng.randint(1,8); ps={}
        left={l:1.0 for l in range(L)}
        for k in range(2,L+1):
            for c in itertools.combinations(range(L),k):
                if rng.random()<.6:
                    p=rng.choice([0,.1,.25,.5,rng.random()*.5])
                    if all(left[l]>=p for l in c):
                        ps[c]=p
                        for l in c: left[l]-=p
        for l in range(L):
            if rng.random()<.5 or not any(l in c for c in ps): ps[(l,)]=rng.random()
        return {"m":"ovl","n":n,"e":edges,"ps":list(ps.items())}
    def check(self,case):
        m=case["m"]
        with Draws(case.get("draws",[])): getattr(self,m)(case)
    def full(self,c):
        n,l=c["n"],c["l"]; net=M.full(n,l)
        if l is None: self.allpairs(net,range(n),"full"); require(net.aspects==0,"aspects"); return
        ls=list(range(l)) if type(l) is int else list(l)
        require(set(net.slices[1])==set(ls),"layers",net.slices[1]); require(set(net)==set(range(n)),"nodes",set(net))
        for x in ls: self.allpairs(net.A[x],range(n),"layer %r"%x)
    def allpairs(self,A,nodes,what):
        L=simple(A,what); s=set(frozenset(e[:2]) for e in L); nodes=list(nodes)
        require(set(A)==set(nodes),what,"nodes",set(A)); require(len(L)==len(s) and s==set(frozenset(p) for p in itertools.combinations(nodes,2)),what,"edges",L)
    def full_multilayer(self,c):
        n,l=c["n"],c["l"]; net=M.full_multilayer(n,l); ls=list(range(l)) if type(l) is int else list(l)
        g=list(itertools.product(range(n),ls)); L=list(net.edges)
        require(set(net.iter_node_layers())==set(g),"node-layers",set(net.iter_node_layers()))
        s=set(frozenset(((e[0],e[2]),(e[1],e[3]))) for e in L)
        require(len(s)==len(L) and s==set(frozenset(p) for p in itertools.combinations(g,2)),"edges",len(L)); require(all(e[4]==1 for e in L),"weights")
    def er1(self,A,nodes,p,e,what):
        L=simple(A,what); nodes=list(nodes)
        require(set(A)==set(nodes) if nodes is not None else True,what,"nodes",set(A),"expected",nodes)
        for x in L: require(x[0] in nodes and x[1] in nodes,what,"edge outside the layer",x)
        n=len(nodes)
        if e is not None: require(len(L)==e,what,"number of edges",len(L),"requested",e)
        elif p==1: require(len(L)==n*(n-1)//2,what,"p=1 but",len(L),"edges")
        elif p==0: require(len(L)==0,what,"p=0 but",len(L),"edges")
    def er(self,c):
        net=M.er(c["n"],p=c["p"]) if c["e"] is None else M.er(c["n"],edges=c["e"])
        require(net.aspects==0,"aspects"); self.er1(net,range(c["n"]),c["p"],c["e"],"er")
        if c["e"] is None and c["draws"] and all(x==0.0 for x in c["draws"]) and 0<c["p"]<1 and len(c["draws"])>c["n"]*(c["n"]-1)//2:
            require(len(list(net.edges))==c["n"]*(c["n"]-1)//2,"draws of zero must give all edges")
    def erl(self,c):
        nodes=c["nodes"]; net=M.er(nodes,p=c["p"]) if c["e"] is None else M.er(nodes,edges=c["e"])
        lists=isinstance(nodes,list); k=len(nodes) if lists else len(c["p"] or c["e"]) 
        require(net.aspects==1 and set(net.slices[1])==set(range(k)),"layers",net.slices[1])
        for l in range(k):
            p=c["p"][l] if isinstance(c["p"],list) else c["p"]; e=c["e"][l] if isinstance(c["e"],list) else c["e"]
            self.er1(net.A[l],nodes[l] if lists else range(nodes),p,e,"layer %d"%l)
    def erp(self,c):
        net=M.er_partially_interconnected(c["nodes"],c["p"])
        require(set(net.slices[1])==set(range(len(c["nodes"]))),"layers")
        for l,x in enumerate(c["nodes"]): self.er1(net.A[l],x,c["p"][l],None,"layer %d"%l)
    def er_ml(self,c):
        net=M.er_multilayer(c["n"],c["l"],c["p"],randomWeights=c["w"]); ls=list(range(c["l"])) if type(c["l"]) is int else list(c["l"])
        L=list(net.edges); s=set()
        for e in L:
            require(e[0]!=e[1] and e[0] in range(c["n"]) and e[1] in range(c["n"]) and e[2] in ls and e[3] in ls,"edge",e)
            require(e[4]==1 if not c["w"] else 0<e[4]<=1,"weight",e); s.add(frozenset(((e[0],e[2]),(e[1],e[3]))))
        require(len(s)==len(L),"edge repeated")
        if c["p"]==0: require(not L,"p=0 but edges")
        if c["p"]==1 and not c["draws"]: require(len(L)==c["n"]*(c["n"]-1)//2*len(ls)**2 or c["w"],"p=1 but",len(L),"edges")
    def ba(self,c):
        n,ms=c["n"],c["ms"]; net=M.ba_total_degree(n,list(ms))
        require(set(net)==set(range(n)),"nodes",set(net))
        for l,m in enumerate(ms):
            x=m+(n-m-1)*m if n>m else 0
            if l in net.slices[1]:
                L=simple(net.A[l],"layer %d"%l); require(len(L)==x,"layer",l,"has",len(L),"edges, expected",x)
            else: require(x==0,"layer",l,"missing")
    def ovl(self,c):
        ps=dict(c["ps"]); net=M.er_overlaps_match_aggregated(c["n"],c["e"],ps)
        ls=set(l for k in ps for l in k); tot={}
        for l in ls:
            x=c["e"]
            for k,p in ps.items():
                if len(k)>1 and l in k: m=int(round(p*c["e"])); x+=len(k)*m-m
            left=c["e"]-sum(int(round(p*c["e"])) for k,p in ps.items() if len(k)>1 and l in k)
            if left<0: x-=left
            L=simple(net.A[l],"layer %r"%l) if l in net.slices[1] else []
            require(len(L)==x,"layer",l,"has",len(L),"edges, expected",x)
            for e in L: tot.setdefault(frozenset(e[:2]),set()).add(l)
        cnt=Counter(frozenset(v) for v in tot.values())
        for k,p in ps.items():
            if len(k)>1: require(cnt[frozenset(k)]==len(k)*int(round(p*c["e"])),"edges in exactly the layers",k,cnt[frozenset(k)])
        if all(sum(int(round(p*c["e"])) for k,p in ps.items() if len(k)>1 and l in k)<=c["e"] for l in ls):
            require(len(tot)==c["e"]*len(ls),"aggregated network has",len(tot),"edges, expected",c["e"]*len(ls))

def rgraph(rng,nodes,p):
    return [(a,b) for a,b in itertools.combinations(nodes,2) if rng.random()<p]
def degof(nodes,E): return {n:sum(n in e for e in E) for n in nodes}
@register
class C18(Prop):
    quick=1500; timeout=0.5; hang_is_violation=False
    bound="degree sequences of seeded random graphs with up to 14 nodes and 3 layers, seeded random draws"
    def rand(self,rng,tier):
        k=rng.choice([1,2,3]); nodes=rng.choice([list(range(12)),list("abcdefghij"),list(range(14))]); 
        m=rng.choice(["nodes","dist","layers","list","net","mono","ovl","ovl","rnd","rnd","ldist"])
        L=[]
        for _ in range(k):
            ns=nodes if rng.random()<.5 else rng.sample(nodes,rng.randint(4,len(nodes)))
            L.append((ns,rgraph(rng,ns,rng.choice([.05,.15,.25,.4]))))
        if m=="ovl":
            E={}; 
            for a,b in itertools.combinations(nodes,2):
                if rng.random()<.35:
                    c=tuple(l for l in range(k) if rng.random()<.5)
                    if c: E[(a,b)]=c
            od={}
            for kk in range(1,k+1):
                for c in itertools.combinations(range(k),kk):
                    es=[e for e in E if E[e]==c]
                    if es or rng.random()<.4: od[c]=degof(nodes,es)
            return {"m":m,"od":list(od.items()),"nodes":nodes}
        if m=="rnd": return {"m":m,"spec":rand_spec(rng,kind="mx",aspects=1,weights="num")}
        return {"m":m,"L":L,"seed":rng.randrange(10**6)}
    def check(self,case):
        m=case["m"]
        try: getattr(self,"_"+m)(case)
        except AssertionError: pass      # it did not return
        except ValueError as e:
            if "arger than population" not in str(e): raise
    def degs_eq(self,A,want,what):
        simple(A,what)
        require(set(A)==set(want),what,"nodes",set(A),"expected",set(want))
        for n in want: require(A[n].deg()==want[n],what,"degree of",n,"is",A[n].deg(),"prescribed",want[n])
    def dist_eq(self,A,dd,what):
        simple(A,what); got=Counter(A[n].deg() for n in A); require({k:v for k,v in dd.items() if v}==dict(got),what,"distribution",dict(got),"prescribed",dd)
    def _nodes(self,c):
        ns,E=c["L"][0]; d=degof(ns,E); d0=dict(d); net=M.conf(d,degstype="nodes"); require(d==d0,"parameter changed"); require(net.aspects==0,"aspects"); self.degs_eq(net,d0,"conf")
    def _dist(self,c):
        ns,E=c["L"][0]; d=dict(Counter(degof(ns,E).values())); self.dist_eq(M.conf(dict(d)),d,"conf")
    def _layers(self,c):
        d={"L%d"%i:degof(ns,E) for i,(ns,E) in enumerate(c["L"])}; net=M.conf({k:dict(v) for k,v in d.items()},degstype="nodes")
        require(set(net.slices[1])==set(d),"layers")
        for l in d: self.degs_eq(net.A[l],d[l],"layer "+l)
    def _list(self,c):
        d=[degof(ns,E) for ns,E in c["L"]]; net=M.conf([dict(x) for x in d],degstype="nodes"); require(set(net.slices[1])==set(range(len(d))),"layers")
        for l in range(len(d)): self.degs_eq(net.A[l],d[l],"layer %d"%l)
    def _ldist(self,c):
        d=[dict(Counter(degof(ns,E).values())) for ns,E in c["L"]]; net=M.conf([dict(x) for x in d]); require(set(net.slices[1])==set(range(len(d))),"layers")
        for l in range(len(d)): self.dist_eq(net.A[l],d[l],"layer %d"%l)
    def _net(self,c):
        fic=len(set(tuple(ns) for ns,E in c["L"]))==1; net=pymnet.MultiplexNetwork(couplings="categorical",fullyInterconnected=fic); d={}
        for l,(ns,E) in enumerate(c["L"]):
            net.add_layer(l); d[l]=degof(ns,E)
            for n in ns: net.A[l].add_node(n)
            for a,b in E: net[a,b,l]=1
        before=snapshot(net); g=M.conf(net); require(snapshot(net)==before,"parameter changed"); require(set(g.slices[1])==set(d),"layers")
        for l in d: self.degs_eq(g.A[l],d[l],"layer %d"%l)
    def _mono(self,c):
        ns,E=c["L"][0]; net=pymnet.MultilayerNetwork()
        for n in ns: net.add_node(n)
        for a,b in E: net[a,b]=3
        before=snapshot(net); g=M.conf(net); require(snapshot(net)==before,"parameter changed"); self.degs_eq(g,degof(ns,E),"conf")
    def _ovl(self,c):
        od=dict(c["od"]); 
        if not od: return
        net=M.conf_overlaps({k:dict(v) for k,v in od.items()})
        E={}
        for l in net.iter_layers():
            for e in simple(net.A[l],"layer %r"%l): E.setdefault(frozenset(e[:2]),set()).add(l)
        got={}
        for e,ls in E.items():
            for n in e: got[(frozenset(ls),n)]=got.get((frozenset(ls),n),0)+1
        for k,d in od.items():
            for n in d: require(got.pop((frozenset(k),n),0)==d[n],"overlap degree",k,n,"prescribed",d[n])
        require(not got,"overlap degrees not prescribed",got)
    def _rnd(self,c):
        r=ref(c["spec"]); net=build(c["spec"]); before=snapshot(net); g=T.randomize_nodes_by_layer(net)
        require(snapshot(net)==before,"original changed"); require(type(g)==type(net) and bool(g.directed)==r.directed and g.fullyInterconnected==r.fic,"kind")
        require(set(g.slices[1])==r.slices[1],"layers")
        for l in r.slices[1]:
            nodes=r.slices[0] if r.fic else set(n[0] for n in r._nls if n[1]==l)
            require(set(g.A[l])==nodes,"nodes of layer",l,set(g.A[l]),"expected",nodes)
            E={(a[0],b[0]):w for (a,b),w in r.e.items() if a[1]==l}; F={}
            for e in g.A[l].edges:
                F[(e[0],e[1])]=e[2]
                if not r.directed: F[(e[1],e[0])]=e[2]
            require(sorted(E.values(),key=repr)==sorted(F.values(),key=repr),"weights of layer",l)
            prof=lambda X: sorted((sorted([repr(w) for (a,b),w in X.items() if a==n]),sorted([repr(w) for (a,b),w in X.items() if b==n])) for n in nodes)
            require(prof(E)==prof(F),"structure of layer",l)
            if len(nodes)<=5:
                ns=sorted(nodes,key=repr)
                require(any({(p[a],p[b]):w for (a,b),w in E.items()}==F for p in (dict(zip(ns,q)) for q in itertools.permutations(ns))),"layer",l,"is not a renaming of the original")

class Scratch(object):
    def __enter__(s): s.d=tempfile.mkdtemp(prefix="verif_rt_"); return s.d
    def __exit__(s,*a): shutil.rmtree(s.d,ignore_errors=True)
@register
class C19(Prop):
    quick=1200
    bound="seeded random multiplex networks and texts in all layouts with up to 5 nodes and 3 layers; malformed variants"
    def rand(self,rng,tier):
        m=rng.choice(["json","edgefiles","readedges","uc","uc","uc","bad"])
        if m in("json","edgefiles"):
            s=rand_spec(rng,kind="mx",aspects=1,weights="num",nops=rng.choice([0,2,5,12]))
            s["ops"]=[o for o in s["ops"]]
            return {"m":m,"spec":s,"w":rng.random()<.7,"num":rng.random()<.4,"master":rng.random()<.4,"file":rng.randrange(3),"sep":rng.choice(["\t"," ",","]),"web":rng.random()<.3}
        if m=="readedges":
            lines=[(rng.randrange(3),rng.randrange(5),rng.randrange(5),rng.choice([1,2,.5,3.25,1.0])) for _ in range(rng.randrange(8))]
            return {"m":m,"lines":lines,"directed":rng.random()<.5,"fic":rng.random()<.7,"file":rng.random()<.3}
        n=rng.choice([1,2,3,4,5]); nm=rng.choice([1,1,2,3])
        mats=[]
        for _ in range(nm):
            A=[[0]*n for _ in range(n)]
            for i in range(n):
                for j in range(i+1):
                    if rng.random()<.5: A[i][j]=A[j][i]=rng.choice([1,1,2,0.5,-3])
            if rng.random()<.3:
                for i in range(n):
                    for j in range(n): A[i][j]=rng.choice([0,1]) 
            mats.append(A)
        return {"m":m,"n":n,"nm":nm,"mats":mats,"oneline":rng.random()<.5,"lab":rng.choice(["none","labels","rowcol","emb","row","rowcol2"]),"lev":rng.random()<.5,"split":rng.random()<.3,"commas":rng.random()<.5,"fmt":rng.choice([None,"fullmatrix","fullmatrix diagonal present"]),"case":rng.random()<.5,"fic":rng.random()<.7,"file":rng.random()<.2,"bad":rng.randrange(9)}
    def nontrivial(self,case): return True
    def check(self,case): getattr(self,"_"+case["m"])(case)
    def _json(self,c):
        r=ref(c["spec"]); net=build(c["spec"]); before=snapshot(net)
        if c["file"]==0: txt=IO.write_json(net)
        else:
            with Scratch() as d:
                p=os.path.join(d,"o.json")
                IO.write_json(net,p if c["file"]==1 else open(p,"w")); txt=open(p).read()
        require(snapshot(net)==before,"network changed")
        self.jsontext(txt,r)
        if c["web"]:
            s=pymnet.webplot(net); i=s.index("JSON.parse('")+12; self.jsontext(s[i:s.index("');",i)],r)
    def jsontext(self,txt,r):
        j=_json.loads(txt); norm=lambda x: _json.loads(_json.dumps(x))
        N=[x["name"] for x in j["nodes"]]; L=[x["name"] for x in j["layers"]]
        require(sorted(map(repr,N))==sorted(repr(norm(x)) for x in r.slices[0]),"nodes",N); require(sorted(map(repr,L))==sorted(repr(norm(x)) for x in r.slices[1]),"layers",L)
        got=[(N[x["source"]],N[x["target"]],L[x["layer"]],x["value"]) for x in j["links"]]
        f=lambda a,b,l,w: (repr(norm(l)),repr(norm(w)),(repr(norm(a)),repr(norm(b))) if r.directed else tuple(sorted((repr(norm(a)),repr(norm(b))))))
        want=set(f(a[0],b[0],a[1],w) for (a,b),w in r.e.items()); g=[f(*x) for x in got]
        require(len(g)==len(set(g)) and set(g)==want,"links",g,"expected",want)
    def _edgefiles(self,c):
        r=ref(c["spec"]); net=build(c["spec"]); before=snapshot(net)
        with Scratch() as d:
            IO.write_edge_files(net,os.path.join(d,"x_"),columnSeparator=c["sep"],weights=c["w"],masterFile=c["master"],numericNodes=c["num"])
            fs=set(os.listdir(d)); want=set("x_%s.edg"%l for l in r.slices[1])|({"x_.txt"} if c["master"] else set())
            require(fs==want,"files",fs,"expected",want)
            if c["master"]:
                t=sorted(open(os.path.join(d,"x_.txt")).read().split("\n")[:-1]); require(t==sorted("x_%s.edg;%s;"%(l,l) for l in r.slices[1]),"master file",t)
            num={}
            for l in r.slices[1]:
                if c["num"] and len(set(map(str,r.slices[1])))<len(r.slices[1]): continue
                rows=[x.split(c["sep"]) for x in open(os.path.join(d,"x_%s.edg"%l)).read().split("\n")[:-1]]
                E=[(a[0],b[0],w) for (a,b),w in r.e.items() if a[1]==l]
                if not r.directed: E=[e for i,e in enumerate(E) if not any((x[1],x[0])==(e[0],e[1]) for x in E[:i])]
                require(len(rows)==len(E),"lines in layer",l,rows,"expected",E)
                if c["num"]:
                    for x in rows: require(all(v.isdigit() and int(v)<len(r.slices[0]) for v in x[:2]),"node numbers",x)
                    if c["w"]: require(sorted(x[2] for x in rows)==sorted(str(w) for _,_,w in E),"weights",rows)
                    continue
                f=lambda a,b,w: (tuple([a,b]) if r.directed else tuple(sorted([a,b])))+((w,) if c["w"] else ())
                require(sorted(f(x[0],x[1],x[2] if c["w"] else None) for x in rows)==sorted(f(str(a),str(b),str(w)) for a,b,w in E),"lines of layer",l,rows,"expected",E)
            if c["num"] and c["w"]:   # consistent numbering over layers: some injection explains all lines
                ns=sorted(r.slices[0],key=repr)
                if len(ns)<=5:
                    alls={l:sorted(tuple(x.split(c["sep"])) for x in open(os.path.join(d,"x_%s.edg"%l)).read().split("\n")[:-1]) for l in r.slices[1]}
                    def fits(p):
                        for l in r.slices[1]:
                            E={(p[a[0]],p[b[0]]):str(w) for (a,b),w in r.e.items() if a[1]==l}
                            for x in alls[l]:
                                if E.get((int(x[0]),int(x[1])))!=x[2]: return False
                        return True
                    require(any(fits(dict(zip(ns,q))) for q in itertools.permutations(range(len(ns)))),"node numbers are inconsistent",alls)
        require(snapshot(net)==before,"network changed")
    def _readedges(self,c):
        lines=["%d %d %d %s\n"%x for x in c["lines"]]
        r=Ref({"kind":"mx","aspects":1,"directed":c["directed"],"noEdge":0,"fic":c["fic"],"couplings":[("categorical",1.0)]})
        for l,i,j,w in c["lines"]:
            if i!=j: r.set((i,l),(j,l),float(w))
        with Scratch() as d:
            src=lines
            if c["file"]:
                src=os.path.join(d,"e.edg"); open(src,"w").write("".join(lines))
            got=IO.read_edge_files(src,directed=c["directed"],fullyInterconnected=c["fic"])
        check_content(got,r,"network read")
    def text(self,c):
        n,nm,mats=c["n"],c["nm"],c["mats"]; up=(lambda s:s.upper()) if c["case"] else (lambda s:s)
        head=("N=%d"%n)+(" NM = %d"%nm if nm>1 else ""); L=[up("dl")+" "+head] if c["oneline"] else [up("dl"),head]
        if c["fmt"]: L.append("format = "+c["fmt"])
        R=["r%d"%i for i in range(n)]; C=["c%d"%i for i in range(n)]; lab=["n%d"%i for i in range(n)]
        def put(x): L.extend([", ".join(x)] if c["commas"] else x)
        if c["lab"]=="labels": L.append("labels:"); put(lab); rl=cl=lab
        elif c["lab"] in("rowcol","rowcol2"):
            if c["lab"]=="rowcol2": C=R
            L.append("row labels:"); put(R); L.append("column labels:"); put(C); rl,cl=R,C
        elif c["lab"]=="row": L.append("row labels:"); put(R); rl,cl=R,list(range(n))
        elif c["lab"]=="emb": L.append("labels embedded"); rl=cl=lab
        else: rl=cl=list(range(n))
        lev=["lev%d"%i for i in range(nm)] if c["lev"] and nm>1 else list(range(nm))
        if c["lev"] and nm>1: L.append("level labels:"); put(lev)
        L.append(up("data:"))
        if c["lab"]=="emb": L.append(" ".join(x.upper() for x in lab))
        for A in mats:
            for i,row in enumerate(A):
                f=[str(v) for v in row]
                if c["lab"]=="emb": L.append(" ".join([lab[i]]+f))
                elif c["split"] and n>1: L+= [" ".join(f[:1])," ".join(f[1:])]
                else: L.append("  ".join(f))
        return L,rl,cl,lev
    def _uc(self,c):
        L,rl,cl,lev=self.text(c); nm=c["nm"]; lines=[x+"\n" for x in L]
        if c["lab"]=="emb" and nm>1: return     # layout only defined for one matrix
        fic=c["fic"] if nm>1 else True
        spec={"kind":"mx" if nm>1 else "ml","aspects":1 if nm>1 else 0,"directed":False,"noEdge":0,"fic":fic,"couplings":[("categorical",1.0)]}
        r=Ref(spec)
        for l in range(nm):
            t=(lev[l],) if nm>1 else ()
            if fic and nm>1:
                r.add_layer(lev[l],1)
                for x in list(cl)+list(rl): r.add_node(x)
            for i in range(c["n"]):
                for j in range(c["n"]):
                    if rl[i]!=cl[j] and c["mats"][l][i][j]: r.set((cl[j],)+t,(rl[i],)+t,float(c["mats"][l][i][j]))
        with Scratch() as d:
            src=lines
            if c["file"]:
                src=os.path.join(d,"u.dl"); open(src,"w").write("".join(lines))
            got=IO.read_ucinet(src,fullyInterconnected=c["fic"])
        if nm==1 and set(cl)|set(rl)>=set(got): r.slices[0]=set(got)|r.slices[0]
        if nm>1 and not fic: r.slices[1]=r.slices[1]|(set(got.slices[1])&set(lev))
        check_content(got,r,"network read")
    def _bad(self,c):
        L,rl,cl,lev=self.text(c); k=c["bad"]; n=c["n"]
        if c["lab"]=="emb" and c["nm"]>1: return
        di=[i for i,x in enumerate(L) if x.lower().startswith("data")][0]
        if k==0: L[0]="xx"+L[0][2:]
        elif k==1: L=L[:di]
        elif k==2: L=L[:-1] if not (c["split"] and n>1) else L[:-2]
        elif k==3: L=L+[L[-1]] if not (c["split"] and n>1) else L+L[-2:]
        elif k==4: L.insert(di,"strange command")
        elif k==5: L[-1]=L[-1]+" 1 0 1"
        elif k==6:
            if n==1 or c["lab"]=="emb": return
            j=-1 if not c["split"] else -2
            L[j]="x "+L[j].split(None,1)[1] if j==-1 else "x"
        elif k==7: L=[]
        elif k==8: L.insert(di,"format = edgelist1")
        try: got=IO.read_ucinet([x+"\n" for x in L],fullyInterconnected=c["fic"])
        except Exception: return
        require(False,"malformed input accepted, variant",k,L)

NXF=[("number_connected_components",(),{}),("is_connected",(),{}),("connected_components",(),{"post":lambda x:sorted(map(lambda s:sorted(map(repr,s)),x))}),("degree_centrality",(),{}),("clustering",(),{}),
     ("triangles",(),{}),("density",(),{}),("transitivity",(),{}),("average_clustering",(),{}),("betweenness_centrality",(),{}),("closeness_centrality",(),{}),("core_number",(),{}),
     ("shortest_path_length",(),{"post":lambda x:{k:dict(v) for k,v in x}}),("number_of_edges",(),{}),("number_of_nodes",(),{}),("all_pairs_dijkstra_path_length",(),{"post":lambda x:{k:dict(v) for k,v in x}}),
     ("minimum_spanning_tree",(),{"tree":1}),("to_dict_of_lists",(),{"post":lambda x:{k:sorted(map(repr,v)) for k,v in x.items()}}),("adjacency_matrix",(),{"post":lambda x:x.todense().tolist(),"order":1})]
@register
class C20(Prop):
    quick=1500
    bound="seeded random undirected networks without aspects, up to 8 nodes; 19 wrapped functions, failing calls, edits on both sides"
    def rand(self,rng,tier):
        s=rand_spec(rng,kind="ml",aspects=0,directed=False,noEdge=rng.choice([0,0,0,-1]),weights="pos",selfedges=rng.random()<.3)
        edits=[]
        for _ in range(rng.randrange(6)):
            i,j=rng.sample([0,1,2,"q","r"],2)
            edits.append(rng.choice([("net",i,j,rng.choice([1,2,5])),("nx",i,j,rng.choice([1,3])),("nxw",i,j,rng.choice([2,4])),("nxn",i),("rm",i,j),("netrm",i,j),("adj",i,j,rng.choice([1,4,0,-2])),("adjp",i,j,rng.choice([1,6])),("adje",i,j),("adjn",i,j,rng.choice([2,0])),("wd",i,j)]))
        return {"spec":s,"f":rng.randrange(len(NXF)),"edits":edits,"fail":rng.randrange(4)}
    def view(self,v,net,r,what):
        import networkx
        N=list(v.nodes()); require(len(N)==len(set(N)) and set(N)==r.slices[0],what,"nodes",N,"expected",r.slices[0])
        require(len(v)==len(N) and v.number_of_nodes()==len(N),what,"number of nodes")
        E={frozenset((a[0],b[0])):w for (a,b),w in r.e.items()}
        L=[(frozenset((a,b)),d["weight"]) for a,b,d in v.edges(data=True)]
        require(len(L)==len(E) and dict(L)==E,what,"edges",L,"expected",E)
        for a in N:
            nb=list(v[a]); x=set(b[0] for (q,b) in r.e if q[0]==a)
            require(len(nb)==len(set(nb)) and set(nb)==x,what,"neighbours of",a,nb,"expected",x)
            for b in N:
                require(v.has_edge(a,b)==(b in x),what,"has_edge",a,b)
                if b in x: require(v[a][b]["weight"]==r.W((a,),(b,)),what,"weight",a,b,v[a][b]["weight"])
        require("?nothere" not in v,what,"membership")
    def check(self,case):
        import networkx
        from pymnet import nx
        spec=case["spec"]; r=ref(spec); net=build(spec); orig=networkx.Graph
        v=nx.autowrap(net); self.view(v,net,r,"view")
        before=snapshot(net)
        name,args,opt=NXF[case["f"]]
        g=networkx.Graph()
        for n in net: g.add_node(n)
        for (a,b),w in r.e.items(): g.add_edge(a[0],b[0],weight=w)
        def run(f,x):
            try:
                y=f(x,*args)
                if "post" in opt: y=opt["post"](y)
                return ("ok",y)
            except Exception as e: return ("exc",type(e).__name__)
        x=run(getattr(networkx,name),g); y=run(getattr(nx,name),net)
        require(networkx.Graph is orig,"networkx.Graph not restored after",name)
        require(x[0]==y[0],name,"gives",y,"expected",x)
        if "tree" in opt:
            if x[0]=="ok":
                t=y[1]; require(isinstance(t,pymnet.MultilayerNetwork),"result is no network",type(t))
                require(set(t)==set(x[1].nodes()),"nodes of the result",set(t)); require(close(sum(e[2] for e in t.edges),sum(d["weight"] for _,_,d in x[1].edges(data=True))),"weight of the tree")
                require(len(list(t.edges))==x[1].number_of_edges(),"edges of the tree")
        elif x[0]=="ok":
            def same(p,q):
                if isinstance(p,dict): return isinstance(q,dict) and set(p)==set(q) and all(same(p[k],q[k]) for k in p)
                if isinstance(p,float) or isinstance(q,float): return close(p,q,1e-9)
                if isinstance(p,list): return len(p)==len(q) and all(same(a,b) for a,b in zip(p,q))
                return p==q
            require(same(x[1],y[1]),name,"gives",y[1],"expected",x[1])
        require(snapshot(net)==before,"network changed by",name)
        try:
            k=case["fail"]
            if k==0: nx.shortest_path(net,"?no","?no2")
            elif k==1: nx.dijkstra_path(net,"?no","?x")
            elif k==2: nx.number_connected_components(net,1,2,3)
            else: nx.gnp_random_graph("a",0.5)
            failed=False
        except Exception: failed=True
        require(networkx.Graph is orig,"networkx.Graph not restored after a failing call")
        for e in case["edits"]:
            w=r.noEdge
            if e[0]=="net": net[e[1],e[2]]=e[3]; w=e[3]
            elif e[0]=="nx": v.add_edge(e[1],e[2],weight=e[3]); w=e[3]
            elif e[0]=="nxw":
                if r.W((e[1],),(e[2],))==r.noEdge: continue
                v[e[1]][e[2]]["weight"]=e[3]; w=e[3]
            elif e[0]=="nxn": v.add_node(e[1]); r.add_node(e[1]); self.view(v,net,r,"after %r"%(e,)); continue
            elif e[0]=="adj": v.add_node(e[1]); v.add_node(e[2]); v._adj[e[1]][e[2]]={"weight":e[3]}; w=e[3]
            elif e[0]=="adjp": v.add_node(e[1]); v._adj[e[1]][e[2]]=e[3]; w=e[3]
            elif e[0]=="adje": v.add_node(e[1]); v._adj[e[1]][e[2]]={}; w=1
            elif e[0]=="adjn": v._adj[e[1]]={e[2]:{"weight":e[3]}}; w=e[3]; r.add_node(e[1])
            elif e[0]=="wd":
                if r.W((e[1],),(e[2],))==r.noEdge: continue
                del v[e[1]][e[2]]["weight"]
            elif e[0]=="rm":
                if r.W((e[1],),(e[2],))==r.noEdge: continue
                v.remove_edge(e[1],e[2])
            elif e[0]=="netrm": net[e[1],e[2]]=r.noEdge
            r.set((e[1],),(e[2],),w)
            self.view(v,net,r,"after %r"%(e,)); check_edges(net,r,"after %r"%(e,))

@register
class C21(Prop):
    quick=1500
    bound="seeded random pairs of undirected networks with 0-2 aspects, at most 4 nodes and 3 layers, against enumeration of all permutations"
    def rand(self,rng,tier):
        asp=rng.choice([0,1,1,2]); kind=rng.choice(["ml","mx"]) if asp else "ml"
        lay=[["A","B","C"][:rng.choice([1,2,2,3 if asp==1 else 2])] for _ in range(asp)]; nodes=[0,1,2,3][:rng.choice([1,2,3,3,4 if asp<2 else 3])]
        fic=rng.random()<.5 if asp else True
        def one(nodes,lay,n):
            s={"kind":kind,"aspects":asp,"directed":False,"noEdge":0,"fic":fic,"ops":[]}
            if kind=="mx": s["couplings"]=cp
            if fic or rng.random()<.7: s["ops"]+=[("add_layer",l,a+1) for a in range(asp) for l in lay[a]]+[("add_node",x) for x in (nodes if fic else [])]
            g=list(itertools.product(nodes,*lay))
            if not fic: s["ops"]+=[("add_nl",x,False) for x in g if rng.random()<.6]
            for _ in range(n):
                a=rng.choice(g); b=rng.choice(g) if kind=="ml" and rng.random()<.5 else (rng.choice(nodes),)+a[1:]
                if a==b and (kind=="mx" or rng.random()<.7): continue
                s["ops"].append(("set",a,b,rng.choice([1,1,2]),0))
            return s
        cp=[rng.choice([("none",),("categorical",1.0)]) for _ in range(asp)]
        s=one(nodes,lay,rng.choice([0,1,2,3,4,6]))
        x=rng.random()
        allowed="all" if rng.random()<.3 else [a for a in range(asp+1) if rng.random()<.6]
        if x<.7:
            r=ref(s); P=[]
            for a,sl in enumerate(r.slices):
                o=sorted(sl,key=repr); p=o[:]; 
                if allowed=="all" or a in allowed or rng.random()<.2: rng.shuffle(p)
                if (allowed=="all" or a in allowed) and rng.random()<.2: p=[("z%d"%i if isinstance(v,str) else v+10) for i,v in enumerate(p)]
                P.append(dict(zip(o,p)))
            G=lambda n: tuple(P[a].get(v,v) for a,v in enumerate(n)); ops=[]
            for o in s["ops"]:
                if o[0]=="add_layer": ops.append((o[0],P[o[2]].get(o[1],o[1]),o[2]))
                elif o[0]=="add_node": ops.append((o[0],P[0].get(o[1],o[1])))
                elif o[0]=="add_nl": ops.append((o[0],G(o[1]),False))
                else: ops.append(("set",G(o[1]),G(o[2]),o[3],0))
            rng.shuffle(ops); t=dict(s,ops=ops)
            if x<.35:
                rt=ref(t); g=sorted(rt.nls(),key=repr)
                if g:
                    a=rng.choice(g); b=rng.choice(g) if kind=="ml" else (rng.choice(sorted(rt.slices[0],key=repr)),)+a[1:]
                    if a!=b: t["ops"]=ops+[("set",a,b,rng.choice([0,1]),0)]
        else: t=one(nodes,[rng.choice([l,["A","B","C"][:2]]) for l in lay],rng.choice([0,1,2,3,4]))
        return {"spec":s,"other":t,"allowed":allowed,"fixed":rng.random()<.5}
    def check(self,case):
        a,b=build(case["spec"]),build(case["other"]); ra,rb=ref(case["spec"]),ref(case["other"]); al=case["allowed"]
        A=list(range(ra.aspects+1)) if al=="all" else al
        na,nb=ra.nls(),rb.nls(); Ea=set(frozenset(k) for k in ra.edges()); Eb=set(frozenset(k) for k in rb.edges())
        def maps():
            opts=[]
            for i in range(ra.aspects+1):
                o=sorted(ra.slices[i],key=repr)
                if i in A:
                    q=sorted(rb.slices[i],key=repr)
                    opts.append([dict(zip(o,p)) for p in itertools.permutations(q)] if len(o)==len(q) else [])
                else: opts.append([dict(zip(o,o))])
            return itertools.product(*opts)
        def isiso(P):
            G=lambda n: tuple(P[i][v] for i,v in enumerate(n))
            return set(map(G,na))==nb and set(frozenset(map(G,e)) for e in Ea)==Eb
        want=any(isiso(P) for P in maps())
        sa,sb=snapshot(a),snapshot(b)
        kw={} if al=="all" else {"allowed_aspects":list(al)}
        got=pymnet.is_isomorphic(a,b,**kw)
        require(bool(got)==want,"is_isomorphic gives",got,"expected",want)
        m=pymnet.get_isomorphism(a,b,include_fixed=case["fixed"],**kw)
        require((m is not None)==want,"get_isomorphism gives",m,"but isomorphic is",want)
        if m is not None:
            require(len(m)==ra.aspects+1,"mapping",m); P=[]
            for i,d in enumerate(m):
                o=sorted(ra.slices[i],key=repr)
                if case["fixed"]: require(set(d)==set(o),"mapping of aspect",i,d)
                f={x:d.get(x,x) for x in o}
                if i in A: require(set(f.values())==rb.slices[i] and len(set(f.values()))==len(o),"mapping of aspect",i,"is no permutation",d)
                else: require(all(f[x]==x for x in o),"fixed aspect",i,"is permuted",d)
                P.append(f)
            require(isiso(P),"the mapping",m,"is no isomorphism")
        require(snapshot(a)==sa and snapshot(b)==sb,"arguments changed")
