"""Contracts and cases of pymnet.transforms."""
from cases_net import *
T=  "pymnet.transforms."
def newnet(I,d,noEdge,directed,fic): return emptyview(I,I.repo.module("pymnet.net").classes["MultilayerNetwork"],d,noEdge,directed,fic)
def copynodes(I,src,dst):
    n=D(I,src)+1
    for a in range(n): I.put(slice_ref(I,dst,a),I.rec(slice_ref(I,src,a)))
    if not isfic(I,dst): I.put(fields(I,dst)["$NL"],SetRec(lambda k,m=absNL(I,src):m(k),tsh(n)))
# ------------------------------------------------------------------ threshold (C11)
def accept(I,w,t,rule):
    w,t=real(w),real(I.num(t))
    return {">=":w>=t,"<=":w<=t,">":w>t,"<":w<t}[rule]
@contract(T+"threshold")
def c_threshold(I,net,threshold,method=">=",ignoreCouplingEdges=False):
    if not hasview(I,net,"$W") or type(method) is not str: return NotImplemented
    d=D(I,net); n=d+1; W=Wf(I,net); ne=noE(I,net)
    if method not in (">=","<=",">","<"):
        u,v=fresh_consts(n,"u"),fresh_consts(n,"v")
        if I.branch(EXISTS(u+v,[EX(I,net,u,v)])): raise PyRaise("Exception")
        acc=lambda w:FALSE
    else: acc=lambda w:accept(I,w,threshold,method)
    r=newnet(I,d,fields(I,net)["noEdge"],fields(I,net)["directed"],fields(I,net)["fullyInterconnected"])
    copynodes(I,net,r)
    setW(I,r,lambda k:ITE(AND(W(k)!=ne,acc(W(k))),W(k),ne))
    return r
def thr(dmax):
    for d,directed,fic in variants(dmax,(True,False)):
        L=lab(d,directed,fic)
        for rule in (">=","<=",">","<","=="):
            def f(s,mode,d=d,directed=directed,fic=fic,L=L,rule=rule):
                def setup(I):
                    r,v,F=two(I,d,directed,fic,"view","num"); t=z3.Const("t",R)
                    return {"args":[r,t,rule],"sargs":[v,t,rule],"nets":[(r,v)]}
                s.case(T+"threshold",L+" rule "+rule,setup)
            reg("threshold","threshold %s %s"%(L,rule),f,("view",),0 if d<=2 else 1)
thr(3)
# ------------------------------------------------------------------ relabelling (C12)
def dmap(I,d,x):
    """the new name of x under the dictionary d (None: unchanged)"""
    if d is None: return x
    r=I.rec(d)
    if r.empty: return x
    r=shape1(r); return ITE(r.dom([x]),toV(r.val([x])),x)
def layerdicts(I,layerNames,d):
    if layerNames is None: l=[]
    elif isinstance(layerNames,Ref) and isinstance(I.rec(layerNames),DictRec): l=[layerNames]
    else: l=I.seqof(layerNames).items()
    return l+[None]*(d-len(l))
@contract(T+"relabel")
def c_relabel(I,net,nodeNames=None,layerNames=None):
    """precondition: the maps are injective on the names of the network and give admissible names"""
    if not hasview(I,net,"$W") or I.rec(net).cls.name!="MultilayerNetwork": return NotImplemented
    d=D(I,net); n=d+1; W=Wf(I,net); ne=noE(I,net); ds=[nodeNames]+layerdicts(I,layerNames,d)
    r=newnet(I,d,fields(I,net)["noEdge"],fields(I,net)["directed"],fields(I,net)["fullyInterconnected"])
    G=[]; mem=[I.rec(slice_ref(I,net,a)).mem for a in range(n)]
    for a in range(n):
        g=z3.Function(I.name("inv"),V,V); x=z3.FreshConst(V,"x"); G.append(g)
        y=z3.FreshConst(V,"y"); fx,fy=dmap(I,ds[a],x),dmap(I,ds[a],y)
        if not (fx.eq(x)): I.need(FORALL([x,y],IMP(AND(mem[a]([x]),mem[a]([y]),fx==fy),x==y)),"the map of names is injective"); I.need(FORALL([x],IMP(mem[a]([x]),nname(fx,d) if a==0 else lname(fx,d))),"the new names are admissible")
        I.fact(FORALL([x],IMP(mem[a]([x]),g(fx)==x)))
    img=[lambda y,a=a:AND(mem[a]([G[a](y)]),dmap(I,ds[a],G[a](y))==y) for a in range(n)]
    for a in range(n): I.put(slice_ref(I,r,a),SetRec(lambda k,a=a:img[a](k[0])))
    ok=lambda u:AND(*[img[a](x) for a,x in enumerate(u)]); inv=lambda u:[G[a](x) for a,x in enumerate(u)]
    if not isfic(I,r): m=absNL(I,net); I.put(fields(I,r)["$NL"],SetRec(lambda k:AND(ok(list(k)),m(inv(list(k)))),tsh(n)))
    setW(I,r,lambda k:ITE(AND(ok(list(k[:n])),ok(list(k[n:]))),W(inv(list(k[:n]))+inv(list(k[n:]))),ne))
    return r
def namemap(I,tag,vnet,a,d):
    """an arbitrary dictionary that is injective on the a-th elementary layers of the network"""
    dom,val=z3.Function(tag+"dom",V,B),z3.Function(tag+"val",V,V)
    r=I.alloc(DictRec(lambda k:dom(k[0]),lambda k:val(k[0]),1)); x,y=fresh_consts(2,"x"); m=lambda z:slice_mem(I,vnet,a,z); f=lambda z:ITE(dom(z),val(z),z)
    I.fact(FORALL([x,y],IMP(AND(m(x),m(y),f(x)==f(y)),x==y)))
    I.fact(FORALL([x],IMP(m(x),nname(f(x),d) if a==0 else lname(f(x),d))))
    return r
def rel(dmax):
    for d,directed,fic in variants(dmax,(True,False)):
        L=lab(d,directed,fic)
        for how in ("none","nodes","layers","both","dict"):
            if (how=="dict" and d!=1) or (how in("layers","both") and d==0): continue
            def f(s,mode,d=d,directed=directed,fic=fic,L=L,how=how):
                def setup(I):
                    r,v,F=two(I,d,directed,fic,"view")
                    nn=namemap(I,"nn",v,0,d) if how in ("nodes","both") else None
                    ln=None
                    if how in ("layers","both"):
                        ls=[namemap(I,"ln%d"%a,v,a+1,d) for a in range(d if how=="both" else max(1,d-1))]
                        ln=I.alloc(ListRec([Part((),TRUE,x) for x in ls])) if how=="layers" else Tup(ls)
                    if how=="dict": ln=namemap(I,"ln",v,1,d)
                    return {"args":[r,nn,ln],"sargs":[v,nn,ln],"nets":[(r,v)],"keep":[x for x in (nn,ln) if isinstance(x,Ref)]}
                s.case(T+"relabel",L+" maps "+how,setup)
            reg("relabel","relabel %s %s"%(L,how),f,("view",),0 if d<=1 or how in("none","both") and d<=2 else 1)
rel(2)
# ------------------------------------------------------------------ subnetworks (C09)
@contract(T+"subnet")
def c_subnet(I,net,nodes,*layers,**kw):
    newNet=kw.get("newNet"); nolinks=I.hostbool(kw.get("nolinks",False))
    plain=("MultilayerNetwork","MultilayerNetworkWithParent")
    if not hasview(I,net,"$W") or I.rec(net).cls.name not in plain: return NotImplemented
    if newNet is None and iswp(I,net): return NotImplemented
    if newNet is not None and (not hasview(I,newNet,"$W") or I.rec(newNet).cls.name not in plain): return NotImplemented
    d=D(I,net); n=d+1
    if newNet is not None and iswp(I,newNet) and d: return NotImplemented
    if len(layers)!=d: raise PyRaise("AssertionError")
    sel=[]
    for a,x in enumerate((nodes,)+layers):
        m=I.rec(slice_ref(I,net,a)).mem
        if x is None: sel.append(m); continue
        g=I.rec(b_set(I,x))
        if g.shape!=1: raise Unsupported("selection of another shape")
        sel.append(lambda k,m=m,g=g:AND(m(k),g.mem(k)))
    if newNet is None: newNet=newnet(I,d,fields(I,net)["noEdge"],fields(I,net)["directed"],fields(I,net)["fullyInterconnected"])
    if not isfic(I,net) and isfic(I,newNet): raise PyRaise("TypeError")
    inn=lambda u:AND(*[sel[a]([x]) for a,x in enumerate(u)])
    nl=absNL(I,net) if not isfic(I,net) else inn
    for a in range(n):
        o=slice_ref(I,newNet,a); old=I.rec(o).mem
        if a==0 and not isfic(I,net):
            w=fresh_consts(d,"l"); new=I.memo(lambda k:EXISTS(w,[nl(list(k)+w),inn(list(k)+w)]),1)
        else: new=sel[a]
        I.put(o,SetRec(lambda k,old=old,new=new:OR(old(k),new(k))))
        if iswp(I,newNet): wp_add_nodes(I,newNet,new)
    if not isfic(I,newNet):
        o=fields(I,newNet)["$NL"]; old2=I.rec(o).mem
        I.put(o,SetRec(lambda k:OR(old2(k),AND(nl(list(k)),inn(list(k)))),tsh(n)))
    if not nolinks:
        W=Wf(I,net); W0=Wf(I,newNet); ne=noE(I,net); q=fresh_consts(2*n,"q")
        I.need(FORALL(q,W0(q)==ne),"the network copied to has no edges")
        setW(I,newNet,lambda k:ITE(AND(inn(list(k[:n])),inn(list(k[n:])),W(list(k))!=ne),W(list(k)),W0(list(k))))
    return newNet
def selection(I,tag,how):
    if how=="none": return None
    f=z3.Function(tag,V,B)
    if how=="set": return I.alloc(SetRec(lambda k:f(k[0])))
    if how=="list": x=z3.FreshConst(V,"x"); return I.alloc(ListRec([Part((x,),f(x),x)]))
    x=z3.FreshConst(V,"x"); return Seq([Part((x,),f(x),x)])
def subn(dmax):
    for d,directed,fic in variants(dmax,(True,False)):
        L=lab(d,directed,fic)
        for how in ("set","list","none","iter","wrong number","new","nolinks","bad new"):
            if how=="wrong number" and d==0 and False: continue
            if how=="bad new" and fic: continue
            def f(s,mode,d=d,directed=directed,fic=fic,L=L,how=how):
                def setup(I):
                    r,v,F=two(I,d,directed,fic,"view"); h=how if how in ("set","list","none","iter") else "set"
                    sel=[selection(I,"sel%d"%a,h if a or h!="none" or True else "set") for a in range(d+1)]
                    if how=="wrong number": sel=sel+sel[:1]
                    kw,kw2={},{}
                    nets=[(r,v)]
                    if how in ("new","bad new"):
                        fl=fields(I,r); f2=True if how=="bad new" else fic
                        a,b=newnet(I,d,fl["noEdge"],directed,f2),newnet(I,d,fl["noEdge"],directed,f2)
                        kw,kw2={"newNet":a},{"newNet":b}; nets.append((a,b))
                    if how=="nolinks": kw=kw2={"nolinks":True}
                    return {"args":[r]+sel,"sargs":[v]+sel,"kw":kw,"skw":kw2,"nets":nets,"keep":[x for x in sel if isinstance(x,Ref)],"raisestate":False}
                s.case(T+"subnet",L+" "+how,setup)
            reg("subnet","subnet %s %s"%(L,how),f,("view",),0 if d<=1 or (d<=2 and how in("set","none","new")) else 1)
subn(2)
# ------------------------------------------------------------------ aggregation (C10)
def post_aggregate(net,asp,selfEdges):
    """same nodes; weights are sums over the edges projecting to the pair; node-layers are the projections"""
    def f(I,res,_):
        d=D(I,net); n=d+1; keep=[a for a in range(n) if a not in asp]; m=len(keep); W=Wf(I,net); ne=noE(I,net); dr=fields(I,net)["directed"]
        out=[]
        if not hasview(I,res,"$W"): return [("result is a network",FALSE)]
        F=fields(I,res); Wr=Wf(I,res)
        out.append(("number of aspects and options",z3.BoolVal(D(I,res)==m-1 and F["directed"]==dr and F["fullyInterconnected"]==(True if m==1 else fields(I,net)["fullyInterconnected"]))))
        out.append(("no-edge value",EQ(toV(F["noEdge"]),ne)))
        k=fresh_consts(1); out.append(("same nodes",FORALL(k,slice_mem(I,net,0,k[0])==slice_mem(I,res,0,k[0]))))
        for j,a in enumerate(keep):
            if j: k=fresh_consts(1); out.append(("layers of the result exist in the network",FORALL(k,IMP(slice_mem(I,res,j,k[0]),slice_mem(I,net,a,k[0])))))
        p,q=fresh_consts(m,"p"),fresh_consts(m,"q"); u,v=fresh_consts(n,"u"),fresh_consts(n,"v")
        pr=lambda x:[x[a] for a in keep]
        S=SUM(u+v,AND(W(u+v)!=ne,eqc(pr(u),p),eqc(pr(v),q)),real(W(u+v)))
        if dr: S0=S
        else:
            u2=fresh_consts(n,"u"); S0=(S+SUM(u2,AND(W(u2+u2)!=ne,eqc(pr(u2),p)),real(W(u2+u2))))/2
        same=eqc(p,q)
        out.append(("weights are the sums of the merged edges",FORALL(p+q,IMP(NOT(same),real(Wr(p+q))==S))))
        out.append(("weights are numbers",FORALL(p+q,V.is_num(Wr(p+q)))))
        out.append(("self-edges",FORALL(p,real(Wr(p+p))==(z3.substitute(S0,*zip(q,p)) if selfEdges else z3.RealVal(0)))))
        if m>1 and not isfic(I,net):
            w=fresh_consts(n,"w"); k=fresh_consts(m)
            out.append(("node-layers are the projections",FORALL(k,absNL(I,res)(k)==EXISTS(w,[absNL(I,net)(w),eqc(pr(w),k)]))))
        shared=reach(I.st,res)&reach(I.st,net)
        out.append(("shares no storage with the input",z3.BoolVal(not shared)))
        return out
    return f
def agg_splits(I):
    """sums of weights are split by the orientation in which the edge list gives the edge"""
    out=[]
    for lt in getattr(I,"orders",[]):
        def f(vs,g,t,lt=lt):
            if any(x.decl().name().startswith("edgeorder") for x in conj(g) if z3.is_app(x)): return None
            ap={}; apps(t,lambda x:z3.is_app(x) and x.decl().name()=="Wr",ap,set()); ap=list(ap.values())
            if len(ap)!=1: return None
            a=ap[0].children(); n=len(a)//2
            return lt(a[:n],a[n:])
        out.append(f)
    return out
def aggr(dmax):
    for d,directed,fic in variants(dmax,(True,False)):
        if d==0: continue
        L=lab(d,directed,fic)
        for asp in ([(1,)] if d==1 else [(1,),(2,),(1,2)]):
            for se in (False,True):
                for asint in ((True,False) if len(asp)==1 and d==1 else (len(asp)==1,)):
                    def f(s,mode,d=d,directed=directed,fic=fic,L=L,asp=asp,se=se,asint=asint):
                        def setup(I):
                            F={}; r,F=mknet(I,d,directed,fic,"view","view","num",noEdge=z3.RealVal(0) if False else 0); v,_=mknet(I,d,directed,fic,"view","view","num",funs=F)
                            a=asp[0] if asint else Tup(asp)
                            return {"args":[r,a],"sargs":[v],"kw":{"selfEdges":se} if se else {},"skw":{},"nets":[(r,v)],"result":False,"post":[post_aggregate(v,asp,se)],"hints":agg_splits}
                        s.case(T+"aggregate",L+" over %s%s"%(asp,", self-edges" if se else ""),setup,spec=lambda I,net:None)
                    reg("aggregate","aggregate %s %s %s %s"%(L,asp,se,asint),f,("view",),0 if d<=1 or not se else 1)
aggr(2)
