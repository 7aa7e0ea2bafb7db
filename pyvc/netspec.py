"""Contracts of pymnet.net: the abstract network (view) and the specification of every method over it.

View of a network with d aspects:  slices[0..d] (sets of names), NL (set of node-layers, when the network is
not fully interconnected), W(u,v) (total weight function over node-layers; noEdge = no edge).
A contract is a specification program over the view. The same program is used (a) as what a caller may assume
and (b) as what the real body is proved to compute from every state satisfying the representation invariant."""
import z3
from engine import *
N="pymnet.net."
CT={}     # qualified name -> contract
def contract(*quals):
    def d(f):
        for q in quals: CT[q]=f
        return f
    return d
def isname(k,notT=False):
    c=[k!=NONE,k!=COLON]
    if notT: c.append(NOT(isT(k)))
    return AND(*c)
def nname(k,d): return isname(k,d==0)
def lname(k,d): return isname(k,d==1)
def nlname(u,d): return AND(nname(u[0],d),*[lname(x,d) for x in u[1:]])
def fields(I,net): return I.rec(net).fields
def D(I,net): return fields(I,net)["aspects"]
def noE(I,net): return toV(fields(I,net)["noEdge"])
def Wf(I,net): 
    f=fields(I,net)["$W"]; return I.rec(f).fn if isinstance(f,Ref) else f.fn
def hasview(I,net,*fs):
    r=I.rec(net)
    return isinstance(r,ObjRec) and all(f in r.fields for f in fs)
def setW(I,net,fn):
    f=fields(I,net)["$W"]
    if not isinstance(f,Ref): f=Ref(net.oid,net.path+(("f","$W"),))
    n=I.rec(f).n; I.put(f,FunRec(fn,n))
def EX(I,net,u,v): return NOT(EQ(Wf(I,net)(list(u)+list(v)),noE(I,net)))
def fresh_consts(n,p="b"): return [z3.FreshConst(V,p) for _ in range(n)]
def slice_mem(I,net,a,k):
    return I.rec(slice_ref(I,net,a)).mem([k])
def slice_ref(I,net,a): return I.index(I.getattr(net,"slices"),a)
def addto(I,ref,x): METHODS["set.add"](I,ref,x)
def isfic(I,net): return fields(I,net)["fullyInterconnected"] is True or fields(I,net)["aspects"]==0
def NLmem(I,net,u):
    """is u a node-layer of the network"""
    if isfic(I,net): return AND(*[slice_mem(I,net,a,x) for a,x in enumerate(u)])
    r=fields(I,net)["$NL"]; return I.rec(r).mem(list(u))
def addNL(I,net,u):
    r=fields(I,net)["$NL"]; addto(I,r,Tup(u))
def tupcomps(I,x,n):
    ok,c=comps(x,tsh(n))
    if not I.must(ok): raise Unsupported("node-layer of another shape")
    return c

# ------------------------------------------------------------------ building pre-states
def mknet(I,d,directed=False,fic=True,links="view",nodes="view",weights="any",cls="pymnet.net.MultilayerNetwork",tag="",funs=None,noEdge=None,existing=True):
    """two objects with the same arbitrary content: funs allows the second to share the first one's functions.
    links/nodes: 'rep' real representation fields, 'view' abstract fields."""
    n=d+1; F=funs if funs is not None else {}
    repo=I.repo; mod=repo.module(cls.rsplit(".",1)[0]); ci=mod.classes[cls.rsplit(".",1)[1]]
    if not F:
        F["tag"]=tag; F["noEdge"]=noEdge if noEdge is not None else (z3.Const(tag+"noEdge",V) if weights=="any" else V.num(z3.Const(tag+"noEdgeR",R)))
        F["slices"]=[z3.Function("%sS%d"%(tag,a),V,B) for a in range(n)]
        F["NL"]=z3.Function(tag+"NL",*([V]*n+[B]))
        if weights=="any": w=z3.Function(tag+"W",*([V]*(2*n)+[V])); F["W"]=lambda k:w(*k)
        else: w=z3.Function(tag+"Wr",*([V]*(2*n)+[R])); F["W"]=lambda k:V.num(w(*k))
        u,v=fresh_consts(n,"u"),fresh_consts(n,"v"); W=F["W"]; ne=toV(F["noEdge"])
        if not directed: I.fact(FORALL(u+v,W(u+v)==W(v+u)))
        # edges only between node-layers of the network with valid names
        mem=lambda x:AND(*[F["slices"][a](x[a]) for a in range(n)])
        nl=(lambda x:F["NL"](*x)) if not fic and d>0 else mem
        I.fact(FORALL(u+v,IMP(W(u+v)!=ne,AND(nl(u),nl(v)))))
        I.fact(FORALL(u,IMP(nl(u),AND(mem(u)))))
        for a in range(n):
            k=fresh_consts(1)
            I.fact(FORALL(k,IMP(F["slices"][a](k[0]),nname(k[0],d) if a==0 else lname(k[0],d))))
    S=[I.alloc(SetRec((lambda k,f=f:f(k[0])),1)) for f in F["slices"]]
    f={"aspects":d,"directed":directed,"noEdge":F["noEdge"],"fullyInterconnected":True if d==0 else fic,"slices":I.alloc(ListRec([Part((),TRUE,x) for x in S]))}
    W=F["W"]; ne=toV(F["noEdge"])
    if links=="view": f["$W"]=I.alloc(FunRec(W,2*n))
    elif links=="rep": repr_links(I,f,F,n,directed)
    if not fic and d>0:
        if nodes=="view": f["$NL"]=I.alloc(SetRec(lambda k:F["NL"](*k),tsh(n)))
        elif nodes=="rep": repr_nodes(I,f,F,n)
    return I.alloc(ObjRec(ci,f)),F
def repr_links(I,f,F,n,directed):
    W=F["W"]; ne=toV(F["noEdge"])
    if "Dn" not in F:
        F["Dn"]=z3.Function(F["tag"]+"Dn",*([V]*n+[B])); u,v=fresh_consts(n,"u"),fresh_consts(n,"v")
        I.fact(FORALL(u+v,IMP(W(u+v)!=ne,AND(F["Dn"](*u),F["Dn"](*v)))))
        F["Dt"]=z3.Function(F["tag"]+"Dt",*([V]*n+[B]))
        I.fact(FORALL(u+v,IMP(W(u+v)!=ne,AND(F["Dt"](*u),F["Dt"](*v)))))
    inner=lambda u,rev:DictRec(lambda v:((W(list(v)+list(u)) if rev else W(list(u)+list(v)))!=ne),lambda v:(W(list(v)+list(u)) if rev else W(list(u)+list(v))),tsh(n))
    f["_net"]=I.alloc(DictRec(lambda u:F["Dn"](*u),lambda u:inner(u,False),tsh(n)))
    if directed:
        f["_rnet"]=I.alloc(DictRec(lambda u:F["Dn"](*u),lambda u:inner(u,True),tsh(n)))
        def td(u):
            v=fresh_consts(n,"v"); return SUM(v,OR(W(list(u)+v)!=ne,W(v+list(u))!=ne),z3.RealVal(1))
        f["_totalDegree"]=I.alloc(DictRec(lambda u:F["Dt"](*u),I.memo(td,n),tsh(n)))
def repr_nodes(I,f,F,n):
    """_nodeToLayers / _layerToNodes; layers are tuples when there are several aspects"""
    sh=n-1; NL=F["NL"]
    if "DN" not in F:
        F["DN"]=z3.Function(F["tag"]+"DN",V,B); F["DL"]=z3.Function(F["tag"]+"DL",*([V]*sh+[B])); u=fresh_consts(n,"u")
        I.fact(FORALL(u,IMP(NL(*u),AND(F["DN"](u[0]),F["DL"](*u[1:])))))
        wit=[z3.Function("%switN%d"%(F["tag"],a),V,V) for a in range(sh)]
        I.fact(FORALL(u[:1],IMP(F["DN"](u[0]),NL(u[0],*[w(u[0]) for w in wit]))))
    f["_nodeToLayers"]=I.alloc(DictRec(lambda k:F["DN"](k[0]),lambda k:SetRec(lambda l:NL(*(list(k)+list(l))),sh),1))
    f["_layerToNodes"]=I.alloc(DictRec(lambda l:F["DL"](*l),lambda l:SetRec(lambda k:NL(*(list(k)+list(l))),1),sh))

# ------------------------------------------------------------------ abstraction and comparison
def absW(I,net):
    """weight function of a network in either form"""
    f=fields(I,net)
    if "$W" in f: return Wf(I,net)
    r=I.rec(f["_net"]); ne=noE(I,net); n=f["aspects"]+1
    if r.empty: return lambda k:ne
    def fn(k):
        u,v=list(k[:n]),list(k[n:]); d=shapeto(r,n); ok=d.dom(u); x=d.val(u)
        if x.empty: return ne
        x=shapeto(x,n); return ITE(AND(ok,x.dom(v)),toV(x.val(v)),ne)
    return fn
def shapel(r,d):
    """keys are layers: names for one aspect, tuples for more"""
    return shape1(r) if d==1 else shapeto(r,d)
def shapeto(r,n):
    """view a dictionary with value keys as one with tuple keys of length n"""
    n=tsh(n)
    if r.shape==n: return r
    if r.shape==1: c=lambda k:[TC[int(n)](*k)]
    else: raise Unsupported("dictionary keys of another shape")
    if isinstance(r,SetRec): return SetRec(lambda k:r.mem(c(k)),n)
    return DictRec(lambda k:r.dom(c(k)),lambda k:r.val(c(k)),n,r.empty)
def absNL(I,net):
    f=fields(I,net); n=f["aspects"]+1
    if "$NL" in f: return I.rec(f["$NL"]).mem
    r=I.rec(f["_nodeToLayers"])
    if r.empty: return lambda k:FALSE
    def mem(k):
        s=r.val([k[0]]); s=shapel(s,n-1)
        return AND(r.dom([k[0]]),s.mem(list(k[1:])))
    return mem
def repinv(I,net):
    """representation invariant of the concrete fields that are present: list of (name, goal)"""
    f=fields(I,net); d=f["aspects"]; n=d+1; out=[]; ne=noE(I,net)
    if "_net" in f:
        r=I.rec(f["_net"]); u,v=fresh_consts(n,"u"),fresh_consts(n,"v")
        if not r.empty:
            r=shapeto(r,n); dm=lambda a,b:AND(r.dom(a),shapeto(r.val(a),n).dom(b)); 
            out.append(("stored weights differ from noEdge",FORALL(u+v,IMP(dm(u,v),toV(shapeto(r.val(u),n).val(v))!=ne))))
            out.append(("both ends of an edge are in the table",FORALL(u+v,IMP(dm(u,v),AND(r.dom(u),r.dom(v))))))
            if not f["directed"]: out.append(("edges are stored in both directions",FORALL(u+v,AND(dm(u,v)==dm(v,u),IMP(dm(u,v),toV(shapeto(r.val(u),n).val(v))==toV(shapeto(r.val(v),n).val(u)))))))
            else:
                q=shapeto(I.rec(f["_rnet"]),n); dq=lambda a,b:AND(q.dom(a),shapeto(q.val(a),n).dom(b))
                out.append(("the reversed table is the transpose",FORALL(u+v,AND(dm(u,v)==dq(v,u),IMP(dm(u,v),toV(shapeto(r.val(u),n).val(v))==toV(shapeto(q.val(v),n).val(u)))))))
                out.append(("the reversed table has the same nodes",FORALL(u,r.dom(u)==q.dom(u))))
                t=shapeto(I.rec(f["_totalDegree"]),n)
                cnt=SUM(v,OR(dm(u,v),dm(v,u)),z3.RealVal(1))
                out.append(("the total degree is the number of neighbours",FORALL(u,ITE(t.dom(u),real(t.val(u)),z3.RealVal(0))==cnt)))
                out.append(("nodes with edges have a total degree",FORALL(u+v,IMP(dm(u,v),AND(t.dom(u),t.dom(v))))))
    if "_nodeToLayers" in f:
        a,b=I.rec(f["_nodeToLayers"]),I.rec(f["_layerToNodes"]); m=absNL(I,net); u=fresh_consts(n,"u")
        if b.empty: g=FORALL(u,NOT(m(u)))
        else:
            b=shapel(b,n-1)
            def m2(k):
                s=b.val(list(k[1:])); return AND(b.dom(list(k[1:])),s.mem([k[0]]))
            g=FORALL(u,m(u)==m2(u))
        out.append(("the two node-layer tables agree",g))
        if not a.empty:
            a1=a.val([u[0]]); a1=shapel(a1,n-1); l=u[1:]
            out.append(("nodes in the node-layer table are in some layer",FORALL(u[:1],IMP(a.dom([u[0]]),EXISTS(l,[a1.mem(l)])))))
    if "$NL" in f or "_nodeToLayers" in f:
        m=absNL(I,net); u=fresh_consts(n,"u")
        out.append(("node-layers consist of known nodes and layers",FORALL(u,IMP(m(u),AND(*[slice_mem(I,net,a,x) for a,x in enumerate(u)])))))
    W=absW(I,net); u,v=fresh_consts(n,"u"),fresh_consts(n,"v")
    return out
def sameview(I,a,b,sa=None,sb=None,W=True):
    """the two networks have the same content: list of (name, goal)"""
    def at(st,f):
        old=I.st; I.st=st
        try: return f()
        finally: I.st=old
    sa=sa or I.st; sb=sb or I.st
    d=at(sa,lambda:D(I,a)); n=d+1; out=[]
    for q in range(n):
        k=fresh_consts(1); x=at(sa,lambda:slice_mem(I,a,q,k[0])); y=at(sb,lambda:slice_mem(I,b,q,k[0]))
        out.append(("slice %d"%q,FORALL(k,x==y)))
    fa,fb=at(sa,lambda:fields(I,a)),at(sb,lambda:fields(I,b))
    if not at(sb,lambda:isfic(I,b)):
        k=fresh_consts(n); x=at(sa,lambda:absNL(I,a))(k); y=at(sb,lambda:absNL(I,b))(k); out.append(("node-layers",FORALL(k,x==y)))
    if W:
        k=fresh_consts(2*n); x=at(sa,lambda:absW(I,a))(k); y=at(sb,lambda:absW(I,b))(k); out.append(("edge weights",FORALL(k,x==y)))
    for nm in ("aspects","directed","fullyInterconnected"):
        if fa.get(nm)!=fb.get(nm): out.append((nm,FALSE))
    out.append(("noEdge",EQ(toV(fa["noEdge"]),toV(fb["noEdge"]))))
    return out
# results
def bagmem(s,x,n):
    """formula: the n-component value x is an element"""
    out=[]
    for p in s.parts:
        vs,c,v=p.inst(); ok,k=comps(v,n); out.append(EXISTS(vs,[c,ok,eqc(k,x)]))
    return OR(*out)
def nodup(s,n,cls=None):
    """no element twice"""
    goals=[]
    for i,p in enumerate(s.parts):
        for j,q in enumerate(s.parts):
            if j<i: continue
            a,ca,va=p.inst(); b,cb,vb=q.inst(); e=EQ(toV(va),toV(vb))
            if i==j:
                if not a: continue
                goals.append(FORALL(a+b,IMP(AND(ca,cb,e),eqc(a,b))))
            else: goals.append(FORALL(a+b,NOT(AND(ca,cb,e))))
    return AND(*goals)
def valcomps(v):
    if isinstance(v,Tup): return len(v.items)
    return 1
def reach(st,ref,acc=None):
    """mutable cells reachable from an object"""
    acc=set() if acc is None else acc
    def go(v):
        if isinstance(v,Ref):
            if v.oid in acc: return
            acc.add(v.oid); go(st.heap.get(v.oid))
        elif isinstance(v,MovedRec): go(v.ref)
        elif isinstance(v,ObjRec):
            for x in v.fields.values(): go(x)
        elif isinstance(v,ListRec):
            for p in v.parts: go(p.val)
        elif isinstance(v,DictRec) and not v.empty:
            x=v.val([z3.FreshConst(V,"r") for _ in range(v.shape)])
            if isinstance(x,(Ref,)+RECS): go(x)
        elif isinstance(v,Tup):
            for x in v.items: go(x)
    go(ref); return acc
def sameresult(I,a,b,stA,stB,ordered=False):
    """the two results agree: list of (name, goal)"""
    if isinstance(a,Ref):
        r=stA.heap.get(a.oid)
        if isinstance(r,ListRec): a=Seq(r.parts)
    if isinstance(b,Ref):
        r=stB.heap.get(b.oid)
        if isinstance(r,ListRec): b=Seq(r.parts)
    if isinstance(a,Seq) and isinstance(b,Seq):
        if a.concrete() and b.concrete() and len(a.parts)==len(b.parts) and len(a.parts)<=1:
            return [("element",tobool(I.eq(p,q))) for p,q in zip(a.items(),b.items())]
        if a.concrete() and b.concrete() and isinstance(ordered,bool) and ordered:
            return [("number of elements",FALSE)] if len(a.parts)!=len(b.parts) else [("element %d"%i,tobool(I.eq(p,q))) for i,(p,q) in enumerate(zip(a.items(),b.items()))]
        if not b.parts and not a.parts: return []
        n=valcomps((b.parts or a.parts)[0].val); x=fresh_consts(n,"x")
        return [("same elements",FORALL(x,bagmem(a,x,n)==bagmem(b,x,n))),("no element twice",nodup(a,n))]
    if isinstance(a,Ref) and isinstance(b,Ref) and a.oid==b.oid and a.path and len(a.path)==len(b.path) and all(x[0]==y[0] for x,y in zip(a.path,b.path)):
        return [("same object",AND(*[eqc([toV(q) for q in x[1]],[toV(q) for q in y[1]]) if x[0]=="k" else z3.BoolVal(x[1]==y[1]) for x,y in zip(a.path,b.path)]))]
    if isinstance(a,Ref) and isinstance(b,Ref):
        ra,rb=stA.heap.get(a.oid),stB.heap.get(b.oid)
        if isinstance(ra,SetRec) and isinstance(rb,SetRec):
            if ra.shape!=rb.shape: ra,rb=shape1(ra),shape1(rb)
            k=fresh_consts(ra.shape); return [("same set",FORALL(k,ra.mem(k)==rb.mem(k)))]
        if isinstance(ra,DictRec) and isinstance(rb,DictRec):
            if ra.shape!=rb.shape: ra,rb=shape1(ra),shape1(rb)
            k=fresh_consts(ra.shape)
            if ra.empty or rb.empty: return [("same keys",FORALL(k,ra.dom(k)==rb.dom(k)))]
            va,vb=ra.val(k),rb.val(k)
            if isinstance(va,(SetRec,)) and isinstance(vb,SetRec):
                j=fresh_consts(va.shape); e=FORALL(j,va.mem(j)==vb.mem(j))
            else: e=tobool(I.eq(va,vb))
            return [("same keys",FORALL(k,ra.dom(k)==rb.dom(k))),("same values",FORALL(k,IMP(ra.dom(k),e)))]
        if isinstance(ra,ObjRec) and isinstance(rb,ObjRec) and ra.cls is rb.cls and "mnet" in ra.fields and "mnet" in rb.fields and set(ra.fields)==set(rb.fields):
            x,y=ra.fields["mnet"],rb.fields["mnet"]; out=[] if any(x.oid==p.oid and y.oid==q.oid for p,q in getattr(I,"pairs",())) or (x.oid==y.oid and x.path==y.path) else [("node of the same network",FALSE)]
            for f in sorted(ra.fields):
                if f!="mnet": out+=[(f+": "+nm,g) for nm,g in sameresult(I,ra.fields[f],rb.fields[f],stA,stB,True)]
            return out
        if isinstance(ra,ObjRec) and isinstance(rb,ObjRec) and "slices" in ra.fields and "slices" in rb.fields and not any(x.oid==a.oid or y.oid==b.oid for x,y in getattr(I,"pairs",())):
            out=[("kind of network",z3.BoolVal(ra.cls is rb.cls))]+sameview(I,a,b,stA,stB)
            shared=reach(stA,a)&set().union(*[reach(stA,x) for x,_ in getattr(I,"pairs",())])
            return out+[("shares no storage with the input",z3.BoolVal(not shared))]
        if any(x.oid==a.oid and y.oid==b.oid for x,y in getattr(I,"pairs",())): return []
        return [("same object",z3.BoolVal(a.oid==b.oid and a.path==b.path))]
    if isinstance(a,Tup) and isinstance(b,Tup) and len(a.items)==len(b.items):
        return sum([sameresult(I,x,y,stA,stB) for x,y in zip(a.items,b.items)],[])
    if isinstance(a,(Ref,Seq)) or isinstance(b,(Ref,Seq)): return [("result kind",FALSE)]
    return [("result",tobool(I.eq(a,b)))]

# ------------------------------------------------------------------ contracts of MultilayerNetwork
M=N+"MultilayerNetwork."
def view(f):
    """the contract applies to abstract networks only"""
    def g(I,self,*a,**k):
        if not (isinstance(self,Ref) and hasview(I,self,"$W")): return NotImplemented
        return f(I,self,*a,**k)
    return g
def nodesview(f):
    """the contract applies when the node-layers are abstract"""
    def g(I,self,*a,**k):
        if not isinstance(self,Ref) or not hasview(I,self,"slices") or not (isfic(I,self) or hasview(I,self,"$NL")): return NotImplemented
        return f(I,self,*a,**k)
    return g
def seqitems(I,x):
    s=I.seqof(x)
    if not s.concrete(): raise Unsupported("symbolic list of dimensions")
    return s.items()
def match(I,dims,v):
    """neighbour v matches the restriction dims"""
    if dims is None: return TRUE
    out=[]
    for x,y in zip(seqitems(I,dims),v):
        if x is None: continue
        x=toV(x); out.append(OR(x==NONE,EQ(y,x)))
    return AND(*out)
def nbrs(I,self,node,dims,how):
    n=D(I,self)+1; u=tupcomps(I,node,n); v=fresh_consts(n,"v")
    if not fields(I,self)["directed"]: how="out"
    c={"out":EX(I,self,u,v),"in":EX(I,self,v,u)}.get(how)
    if c is None: c=OR(EX(I,self,u,v),EX(I,self,v,u))
    return v,AND(c,match(I,dims,v))
def decl(names,f):
    for q in names: CT[M+q]=view(f)
def mk(how):
    def it(I,self,node,dims=None): v,c=nbrs(I,self,node,dims,how); return Seq([Part(v,c,Tup(v))])
    def deg(I,self,node,dims=None): v,c=nbrs(I,self,node,dims,how); return SUM(v,c,z3.RealVal(1))
    def stren(I,self,node,dims=None):
        n=D(I,self)+1; u=tupcomps(I,node,n); W=Wf(I,self); t=z3.RealVal(0)
        for h in (["out","in"] if how=="total" and fields(I,self)["directed"] else [how]):
            v,c=nbrs(I,self,node,dims,h)
            w=W(u+v) if h!="in" or not fields(I,self)["directed"] else W(v+u)
            t=t+SUM(v,c,real(w))
        return t
    return it,deg,stren
IT,DG,SG={},{},{}
for _h in ("out","in","total"): IT[_h],DG[_h],SG[_h]=mk(_h)
def onlydir(f):
    def g(I,self,*a,**k):
        if not fields(I,self)["directed"]: return NotImplemented
        return f(I,self,*a,**k)
    return g
decl(["_iter_neighbors_out"],IT["out"]); decl(["_iter_neighbors_in"],IT["in"]); decl(["_iter_neighbors_total","_iter_neighbors"],IT["total"])
decl(["_iter_neighbors_in_dir"],onlydir(IT["in"])); decl(["_iter_neighbors_total_dir"],onlydir(IT["total"]))
decl(["_get_degree_out"],DG["out"]); decl(["_get_degree_in"],DG["in"]); decl(["_get_degree_total","_get_degree"],DG["total"]); decl(["_get_degree_in_dir"],onlydir(DG["in"])); decl(["_get_degree_total_dir"],onlydir(DG["total"]))
decl(["_get_strength_out"],SG["out"]); decl(["_get_strength_in"],SG["in"]); decl(["_get_strength_total","_get_strength"],SG["total"]); decl(["_get_strength_in_dir"],onlydir(SG["in"])); decl(["_get_strength_total_dir"],onlydir(SG["total"]))
def split_link(I,self,link):
    n=D(I,self)+1; k=tupcomps(I,link,2*n); return k[0::2],k[1::2]
@contract(M+"_get_link")
@view
def c_get_link(I,self,link):
    u,v=split_link(I,self,link); return Wf(I,self)(u+v)
def updW(I,self,u,v,w):
    W=Wf(I,self); n=len(u); w=toV(w); undirected=not fields(I,self)["directed"]
    def fn(k):
        a,b=list(k[:n]),list(k[n:]); c=AND(eqc(a,u),eqc(b,v))
        if undirected: c=OR(c,AND(eqc(a,v),eqc(b,u)))
        return ITE(c,w,W(k))
    setW(I,self,fn)
@contract(M+"_set_link")
@view
def c_set_link(I,self,link,value):
    u,v=split_link(I,self,link); updW(I,self,u,v,value)
@contract(M+"add_layer")
def c_add_layer(I,self,layer,aspect=1):
    if iswp(I,self) and I.hint(aspect)==0: return wp_add_node(I,self,layer)
    if not abstract_nodes(I,self): return NotImplemented
    addto(I,slice_ref(I,self,I.hint(aspect)),layer)
def abstract_nodes(I,self):
    """slices may be changed directly: no concrete node-layer tables"""
    return isinstance(self,Ref) and not hasview(I,self,"_nodeToLayers") and not hasview(I,self,"A") and not hasview(I,self,"parent")
def ismx(I,self): return isinstance(self,Ref) and hasview(I,self,"A")
def iswp(I,self): return isinstance(self,Ref) and hasview(I,self,"parent")
# --- multiplex networks: intra-layer networks that tell their parent about new nodes
def mxintra(I,net,l):
    """record of the (empty) intra-layer network of a layer"""
    f=fields(I,net); d=f["aspects"]; ne=toV(f["noEdge"]); fic=f["fullyInterconnected"]
    x=slice_ref(I,net,0) if fic else SetRec(lambda k:FALSE,1)
    g={"aspects":0,"directed":f["directed"],"noEdge":f["noEdge"],"fullyInterconnected":True,"slices":ListRec([Part((),TRUE,x)]),"$W":FunRec(lambda k:ne,2),"parent":net,"$family":True}
    if not fic: g["_layer"]=l[0] if d==1 else TC[d](*l); g["_name"]=TC[d](*l)
    return ObjRec(I.repo.module("pymnet.net").classes["MultilayerNetworkWithParent"],g)
def mxdict(I,net): return fields(I,fields(I,net)["A"])["_dict"]
def mx_add_layer(I,self,x,a):
    """a new layer: an empty intra-layer network for every layer that it makes"""
    x=toV(x)
    if a:
        d=D(I,self); ref=mxdict(I,self); r=I.rec(ref); S=[(lambda k,q=q,o=I.rec(slice_ref(I,self,q)).mem:OR(k==x,o([k])) if q==a else o([k])) for q in range(1,d+1)]
        new=slice_mem(I,self,a,x); dom=lambda l:OR(r.dom(l),AND(l[a-1]==x,*[S[q](y) for q,y in enumerate(l)]))
        I.put(ref,DictRec(dom,(lambda l:mxintra(I,self,l)) if r.empty else (lambda l:merge(r.dom(l),r.val(l),mxintra(I,self,l))),r.shape))
    addto(I,slice_ref(I,self,a),x)
def mx_table(I,self,node,lc):
    """the node is in the layer, in the table of the multiplex network"""
    t=fields(I,self)["_nodeToLayers"]; r=I.rec(t); n=toV(node); d=D(I,self); sh=tsh(d) if d>1 else 1
    old=(lambda k,l:FALSE) if r.empty else (lambda k,l:AND(r.dom(k),shapel(r.val(k),d).mem(l)))
    I.put(t,DictRec(lambda k:OR(k[0]==n,r.dom(k)),lambda k:SetRec(lambda l:OR(AND(k[0]==n,eqc(l,lc)),old(list(k),list(l))),sh),1))
def layercomps(I,net,layer):
    d=D(I,net)
    if isinstance(layer,Ref) and isinstance(I.rec(layer),ListRec): layer=b_tuple(I,layer)
    return [toV(layer)] if d==1 else tupcomps(I,layer,d)
def mx_add_node(I,self,node,layer=None):
    addto(I,slice_ref(I,self,0),node)
    if isfic(I,self) or layer is None: return
    lc=layercomps(I,self,layer)
    for a,x in enumerate(lc): mx_add_layer(I,self,x,a+1)
    mx_table(I,self,node,lc)
    addto(I,slice_ref(I,mxintraref(I,self,lc),0),node)
def mxintraref(I,self,lc):
    r=mxdict(I,self); return Ref(r.oid,r.path+(("k",tuple(lc)),))
def wp_add_nodes(I,self,new):
    """the parent network after many nodes were added to an intra-layer network"""
    p=fields(I,self)["parent"]
    if isfic(I,p): return     # the set of nodes is shared
    o=slice_ref(I,p,0); old=I.rec(o).mem; I.put(o,SetRec(lambda k:OR(old(k),new(k))))
    t=fields(I,p)["_nodeToLayers"]; r=I.rec(t); d=D(I,p); sh=tsh(d) if d>1 else 1; lc=layercomps(I,p,fields(I,self)["_layer"])
    o2=(lambda k,l:FALSE) if r.empty else (lambda k,l:AND(r.dom(k),shapel(r.val(k),d).mem(l)))
    I.put(t,DictRec(lambda k:OR(new(list(k)),r.dom(k)),lambda k:SetRec(lambda l:OR(AND(new(list(k)),eqc(l,lc)),o2(list(k),list(l))),sh),1))
def wp_add_node(I,self,node):
    p=fields(I,self)["parent"]; addto(I,slice_ref(I,self,0),node)
    if isfic(I,p): return
    addto(I,slice_ref(I,p,0),node); mx_table(I,p,node,layercomps(I,p,fields(I,self)["_layer"]))
@contract(M+"add_node")
def c_add_node(I,self,node,layer=None):
    if iswp(I,self): return wp_add_node(I,self,node)
    if ismx(I,self): return mx_add_node(I,self,node,layer)
    if not abstract_nodes(I,self): return NotImplemented
    d=D(I,self)
    addto(I,slice_ref(I,self,0),node)
    if isfic(I,self) or layer is None: return
    if isinstance(layer,Ref) and isinstance(I.rec(layer),ListRec): layer=b_tuple(I,layer)
    lc=[toV(layer)] if d==1 else tupcomps(I,layer,d)
    for a,x in enumerate(lc): addto(I,slice_ref(I,self,a+1),x)
    addNL(I,self,[toV(node)]+lc)
@contract(M+"__setitem__")
@view
def c_setitem(I,self,item,val):
    if iswp(I,self):
        u,v=item_link(I,self,item)
        if u is None: raise PyRaise("KeyError")
        for x in (u,v): wp_add_node(I,self,x[0])
        return updW(I,self,u,v,val)
    if not abstract_nodes(I,self): return NotImplemented
    u,v=item_link(I,self,item)
    if u is None: raise PyRaise("KeyError")
    d=D(I,self)
    for x in (u,v):
        for a,y in enumerate(x): addto(I,slice_ref(I,self,a),y)
        if not isfic(I,self): addNL(I,self,x)
    updW(I,self,u,v,val)
def item_link(I,self,item):
    """the pair of node-layers an index of 2(d+1) or d+2 entries means; (None,None) for a wrong number of indices"""
    d=D(I,self)
    if not isinstance(item,Tup): return None,None
    it=list(item.items)
    if len(it)==2*(d+1): return [toV(x) for x in it[0::2]],[toV(x) for x in it[1::2]]
    if len(it)==d+2: return [toV(it[0])]+[toV(x) for x in it[2:]],[toV(it[1])]+[toV(x) for x in it[2:]]
    return None,None
def iscolon(I,x):
    if isinstance(x,SliceV): return True
    if not isz(x): return False
    if I.must(toV(x)!=COLON): return False
    if I.must(toV(x)==COLON): return True
    raise Unsupported("index that may be a colon")
def mknode(I,net,u,layers):
    ci=I.repo.module("pymnet.net").classes["MultilayerNode"]
    if layers is not None: layers=I.alloc(ListRec([Part((),TRUE,x) for x in layers]))
    return I.alloc(ObjRec(ci,{"node":Tup(u),"mnet":net,"layers":layers}))
@contract(M+"__getitem__")
@view
def c_getitem(I,self,item):
    """node view, edge weight or restricted node view, by the number of indices and the colons"""
    n=D(I,self)+1
    if isz(item) and n>1:
        for m in range(1,MAXT+1):
            if I.must(TI[m](item)): item=Tup([TA[m][i](item) for i in range(m)]); break
    it=list(item.items) if isinstance(item,Tup) else [item]
    if len(it)==n: return mknode(I,self,it,None)
    if len(it)==n+1 and n>1:
        if any(iscolon(I,x) for x in it[2:]): raise PyRaise("Exception")
        it=it[:2]+[x for x in it[2:] for _ in (0,1)]
    if len(it)==2*n:
        u,v=it[0::2],it[1::2]; col=[iscolon(I,x) for x in v]
        if any(col): return mknode(I,self,u,[None if c else x for c,x in zip(col,v)])
        return Wf(I,self)([toV(x) for x in u+v])
    raise PyRaise("KeyError")
@contract(M+"iter_node_layers")
@nodesview
def c_iter_nl(I,self):
    n=D(I,self)+1; u=fresh_consts(n,"u"); return Seq([Part(u,NLmem(I,self,u),Tup(u))])
@contract(M+"__iter__")
@nodesview
def c_iter(I,self):
    u=fresh_consts(1,"u"); return Seq([Part(u,slice_mem(I,self,0,u[0]),u[0])])
@contract(M+"__len__")
@nodesview
def c_len(I,self):
    u=fresh_consts(1,"u"); return SUM(u,slice_mem(I,self,0,u[0]),z3.RealVal(1))
@contract(M+"iter_nodes")
@nodesview
def c_iter_nodes(I,self,layer=None):
    u=fresh_consts(1,"u"); d=D(I,self)
    if layer is None or isfic(I,self): return Seq([Part(u,slice_mem(I,self,0,u[0]),u[0])])
    lc=[toV(layer)] if d==1 else tupcomps(I,layer,d)
    return Seq([Part(u,NLmem(I,self,u+lc),u[0])])
@contract(M+"iter_layers")
@nodesview
def c_iter_layers(I,self,aspect=None):
    d=D(I,self)
    if aspect is not None:
        a=I.hint(aspect)
        if not 1<=a<=d: raise PyRaise("AssertionError")
        u=fresh_consts(1,"u"); return Seq([Part(u,slice_mem(I,self,a,u[0]),u[0])])
    if d==0: return Seq([])
    u=fresh_consts(d,"u"); return Seq([Part(u,AND(*[slice_mem(I,self,a+1,x) for a,x in enumerate(u)]),Tup(u) if d>1 else u[0])])
# class of the abstract edge list: every edge once (undirected: one orientation chosen by an unknown strict order)
def edge_order(I,self,tag="edgeorder"):
    n=D(I,self)+1; f=z3.Function(I.name(tag),*([x.sort() for x in I.scope]+[V]*(2*n)+[B])); sc=list(I.scope)
    lt=lambda a,b:f(*(sc+list(a)+list(b)))
    if not hasattr(I,"orders"): I.orders=[]
    I.orders.append(lt)
    a,b=fresh_consts(n),fresh_consts(n)
    I.fact(FORALL(a+b,IMP(NOT(eqc(a,b)),lt(a,b)==NOT(lt(b,a))))); I.fact(FORALL(a,lt(a,a)))
    return lt
def interleave(u,v): return [x for p in zip(u,v) for x in p]
# constructor: an empty network
def emptyview(I,cls,d,noEdge,directed,fic,net=None):
    n=d+1; ne=toV(noEdge); S=[I.alloc(SetRec(lambda k:FALSE)) for _ in range(n)]
    f={"aspects":d,"directed":directed,"noEdge":noEdge,"fullyInterconnected":True if d==0 else fic,"slices":I.alloc(ListRec([Part((),TRUE,x) for x in S])),
       "$W":I.alloc(FunRec(lambda k:ne,2*n))}
    if not fic and d>0: f["$NL"]=I.alloc(SetRec(lambda k:FALSE,tsh(n)))
    if net is None: return I.alloc(ObjRec(cls,f))
    I.put(net,ObjRec(I.rec(net).cls,f)); return net
def c_init(I,self,aspects=0,noEdge=0,directed=False,fullyInterconnected=True):
    emptyview(I,None,I.hint(aspects),noEdge,directed,fullyInterconnected,self)
@contract(N+"MultilayerNetwork")
def c_new(I,aspects=0,noEdge=0,directed=False,fullyInterconnected=True):
    return emptyview(I,I.repo.module("pymnet.net").classes["MultilayerNetwork"],I.hint(aspects),noEdge,I.hostbool(directed),I.hostbool(fullyInterconnected))

@contract(N+"MultilayerNetworkWithParent")
def c_newwp(I,aspects=0,noEdge=0,directed=False,fullyInterconnected=True):
    r=emptyview(I,I.repo.module("pymnet.net").classes["MultilayerNetworkWithParent"],I.hint(aspects),noEdge,I.hostbool(directed),I.hostbool(fullyInterconnected))
    I.put(r,I.rec(r).put("$family",True)); return r
# ------------------------------------------------------------------ contracts of MultilayerNode
MN=N+"MultilayerNode."
def nodeparts(I,self):
    f=fields(I,self); return f["mnet"],f["node"],f["layers"]
def spec_node(kind,how):
    def f(I,self,*layers):
        net,u,ly=nodeparts(I,self); n=D(I,net)+1
        if len(layers) not in (0,n): raise PyRaise("AssertionError")
        dims=ly if not layers else I.alloc(ListRec([Part((),TRUE,x) for x in layers]))
        return {"deg":DG,"str":SG}[kind][how](I,net,u,dims)
    return f
NODE_METHODS={"deg":("deg","total"),"deg_total":("deg","total"),"deg_in":("deg","in"),"deg_out":("deg","out"),"str":("str","total"),"str_total":("str","total"),"str_in":("str","in"),"str_out":("str","out")}
def spec_iter(how):
    def f(I,self):
        net,u,ly=nodeparts(I,self); s=IT[how](I,net,u,ly)
        if D(I,net)>0: return s
        return Seq([Part(p.vars,p.cond,p.val.items[0]) for p in s.parts])
    return f
def viewnode(f):
    def g(I,self,*a):
        if not hasview(I,fields(I,self)["mnet"],"$W"): return NotImplemented
        return f(I,self,*a)
    return g
for _q,(_k,_h) in NODE_METHODS.items(): CT[MN+_q]=viewnode(spec_node(_k,_h))
CT[MN+"__len__"]=CT[MN+"deg"]
for _q,_h in (("__iter__","total"),("iter_total","total"),("iter_out","out"),("iter_in","in")): CT[MN+_q]=viewnode(spec_iter(_h))
def nodelink(I,self,item):
    net,u,_=nodeparts(I,self); n=D(I,net)+1
    it=[item] if n==1 else list(item.items)
    if len(it)!=n: raise PyRaise("AssertionError")
    return net,Tup(interleave(u.items,it))
@contract(MN+"__getitem__")
@viewnode
def c_node_get(I,self,item):
    net,l=nodelink(I,self,item); return c_getitem(I,net,l)
@contract(MN+"__setitem__")
@viewnode
def c_node_set(I,self,item,value):
    net,l=nodelink(I,self,item); return c_setitem(I,net,l,value)

# ------------------------------------------------------------------ contracts of MultilayerEdges
ME=N+"MultilayerEdges."
def edgenet(I,self): return fields(I,self)["net"]
def edgetup(I,net,u,v): return Tup(interleave(u,v)+[Wf(I,net)(list(u)+list(v))])
def viewedges(f):
    def g(I,self):
        if not hasview(I,edgenet(I,self),"$W"): return NotImplemented
        return f(I,self)
    return g
@contract(ME+"__iter__")
@viewedges
def c_edges_iter(I,self):
    net=edgenet(I,self); n=D(I,net)+1; u,v=fresh_consts(n,"u"),fresh_consts(n,"v")
    c=EX(I,net,u,v)
    if not fields(I,net)["directed"]: c=AND(c,edge_order(I,net)(u,v))
    return Seq([Part(u+v,c,edgetup(I,net,u,v))])
def sum_all(I,net):
    n=D(I,net)+1; u,v=fresh_consts(n,"u"),fresh_consts(n,"v"); return SUM(u+v,EX(I,net,u,v),z3.RealVal(1))
def sum_diag(I,net):
    n=D(I,net)+1; u=fresh_consts(n,"u"); return SUM(u,EX(I,net,u,u),z3.RealVal(1))
def sum_lt(I,net,lt,strict=False):
    n=D(I,net)+1; u,v=fresh_consts(n,"u"),fresh_consts(n,"v"); c=[EX(I,net,u,v),lt(u,v)]
    if strict: c.append(NOT(eqc(u,v)))
    return SUM(u+v,AND(*c),z3.RealVal(1))
@contract(ME+"__len__")
@viewedges
def c_edges_len(I,self):
    net=edgenet(I,self); a=sum_all(I,net)
    return a if fields(I,net)["directed"] else (a+sum_diag(I,net))/2
def post_edges(net):
    """every edge exactly once, in one of its two orientations when the network is undirected, with its weight"""
    def f(I,res,_):
        n=D(I,net)+1; s=I.seqof(res); k=2*n+1; x=fresh_consts(k,"x"); u,v=x[0:2*n:2],x[1:2*n:2]; mem=lambda a,b:bagmem(s,interleave(a,b)+[Wf(I,net)(list(a)+list(b))],k)
        out=[("lists edges with their weights only",FORALL(x,IMP(bagmem(s,x,k),AND(EX(I,net,u,v),x[-1]==Wf(I,net)(u+v))))),("no element twice",nodup(s,k))]
        if fields(I,net)["directed"]: out.append(("every edge is listed",FORALL(u+v,IMP(EX(I,net,u,v),mem(u,v)))))
        else:
            out.append(("every edge is listed in one orientation",FORALL(u+v,IMP(EX(I,net,u,v),OR(mem(u,v),mem(v,u))))))
            out.append(("no edge is listed in both orientations",FORALL(u+v,IMP(AND(mem(u,v),mem(v,u)),eqc(u,v)))))
        return out
    return f

# ------------------------------------------------------------------ equality
def samecontent(I,a,b):
    """formula: same nodes, layers, node-layers, no-edge value and edge weights (for networks of the same kind)"""
    n=D(I,a)+1; out=[EQ(noE(I,a),noE(I,b))]
    for q in range(n): k=fresh_consts(1); out.append(FORALL(k,slice_mem(I,a,q,k[0])==slice_mem(I,b,q,k[0])))
    if not isfic(I,a): k=fresh_consts(n); out.append(FORALL(k,absNL(I,a)(k)==absNL(I,b)(k)))
    k=fresh_consts(2*n); out.append(FORALL(k,absW(I,a)(k)==absW(I,b)(k)))
    return AND(*out)
def isnet(I,x): return isinstance(x,Ref) and isinstance(I.rec(x),ObjRec) and I.rec(x).cls.issub(I.repo.module("pymnet.net").classes["MultilayerNetwork"])
@contract(M+"__eq__")
@view
def c_eq(I,self,other):
    if not isnet(I,other): return False
    if I.rec(self).cls is not I.rec(other).cls: return False
    if I.rec(self).cls.name not in ("MultilayerNetwork","MultilayerNetworkWithParent"): return NotImplemented
    f,g=fields(I,self),fields(I,other)
    if any(f[x]!=g[x] for x in ("aspects","directed","fullyInterconnected")): return False
    return samecontent(I,self,other)
@contract(M+"__ne__")
@view
def c_ne(I,self,other):
    r=c_eq(I,self,other)
    if r is NotImplemented: return r
    return (not r) if type(r) is bool else NOT(r)

# ------------------------------------------------------------------ multiplex networks
MP=N+"MultiplexNetwork."; WP=N+"MultilayerNetworkWithParent."; AD=N+"MultiplexIntraNetDict."
@contract(MP+"add_layer")
def c_mx_add_layer(I,self,layer,aspect=1):
    a=I.hint(aspect)
    if a==0: mx_add_node(I,self,layer)
    else: mx_add_layer(I,self,layer,a)
@contract(MP+"_add_node_to_layer")
def c_mx_antl(I,self,node,layer):
    lc=layercomps(I,self,layer); mx_table(I,self,node,lc); wp_add_node(I,mxintraref(I,self,lc),node)
@contract(WP+"add_node")
def c_wp_add_node(I,self,node,layer=None): wp_add_node(I,self,node)
@contract(AD+"_add_empty_network")
def c_ad_empty(I,self,layer):
    net=fields(I,self)["_net"]; lc=layercomps(I,net,layer); ref=mxdict(I,net); r=I.rec(ref)
    I.put(ref,DictRec(lambda l:OR(eqc(l,lc),r.dom(l)),(lambda l:mxintra(I,net,l)) if r.empty else (lambda l:merge(eqc(l,lc),mxintra(I,net,l),r.val(l))),r.shape))
def mx_set(I,self,item,val):
    """an edge inside of a layer"""
    u,v=item_link(I,self,item)
    if u is None: raise PyRaise("KeyError")
    for x in (u,v):
        mx_add_node(I,self,x[0],None if isfic(I,self) else layerval(x[1:]))
        for a,y in enumerate(x[1:]): mx_add_layer(I,self,y,a+1)
    mx_set_link(I,self,u,v,val)
def layerval(l): return l[0] if len(l)==1 else Tup(l)
def mx_set_link(I,self,u,v,val):
    if not I.branch(eqc(u[1:],v[1:])) or I.branch(u[0]==v[0]): raise PyRaise("KeyError")
    g=mxintraref(I,self,u[1:])
    for x in (u,v): wp_add_node(I,g,x[0])
    updW(I,g,u[:1],v[:1],val)
@contract(MP+"_set_link")
def c_mx_set_link(I,self,link,value):
    u,v=split_link(I,self,link); mx_set_link(I,self,u,v,value)
