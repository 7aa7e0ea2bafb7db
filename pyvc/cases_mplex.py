"""Cases of MultiplexNetwork, MultilayerNetworkWithParent and MultiplexIntraNetDict (C07, C08).

Pre-state: an arbitrary multiplex network in its representation (sequence of graphs): the sets of names, the
dictionary of intra-layer networks (each one given by its contract: nodes and weights), the node-layer table.
The abstract weight function of the multiplex network is defined from these by the coupling policy."""
import itertools
from verify import *
from cases_net import REG,reg,nlc,lab,dims_arg
import netspec
def netcls(I,n): return I.repo.module("pymnet.net").classes[n]
class MX(object):
    """an arbitrary multiplex network with d aspects"""
    def __init__(s,I,d,directed,fic,coup,weights="any",tag="",noEdge=None,selfloops=False):
        n=d+1; s.I,s.d,s.n,s.directed,s.fic,s.coup=I,d,n,directed,fic,coup
        s.ne=toV(noEdge) if noEdge is not None else (z3.Const(tag+"noEdge",V) if weights=="any" else V.num(z3.Const(tag+"noEdgeR",R)))
        s.S=[z3.Function("%sS%d"%(tag,a),V,B) for a in range(n)]
        if weights=="any": w=z3.Function(tag+"IW",*([V]*(d+2)+[V])); s.IW=lambda l,i,j:w(*(list(l)+[i,j]))
        else: w=z3.Function(tag+"IWr",*([V]*(d+2)+[R])); s.IW=lambda l,i,j:V.num(w(*(list(l)+[i,j])))
        NL=z3.Function(tag+"NL",*([V]*n+[B])); s.NLf=NL
        s.L=lambda l:AND(*[s.S[a+1](x) for a,x in enumerate(l)])
        s.IN=(lambda l,i:AND(s.L(l),s.S[0](i))) if fic else (lambda l,i:NL(i,*l))
        l,i,j=fresh_consts(d,"l"),fresh_consts(1,"i"),fresh_consts(1,"j"); i,j=i[0],j[0]
        if not directed: I.fact(FORALL(l+[i,j],s.IW(l,i,j)==s.IW(l,j,i)))
        I.fact(FORALL(l+[i,j],IMP(s.IW(l,i,j)!=s.ne,AND(s.IN(l,i),s.IN(l,j)))))
        if not selfloops: I.fact(FORALL(l+[i],s.IW(l,i,i)==s.ne))
        if not fic: I.fact(FORALL(l+[i],IMP(NL(i,*l),AND(s.S[0](i),s.L(l)))))
        for a in range(n):
            k=fresh_consts(1)[0]; c=[nname(k,0) if a==0 else lname(k,d)]
            if a and coup[a-1]=="ordinal": c.append(V.is_num(k))
            I.fact(FORALL([k],IMP(s.S[a](k),AND(*c))))
        s.cw=[]
        for a,c in enumerate(coup):
            x=V.num(z3.Const("%scw%d"%(tag,a),R)) if weights=="num" else z3.Const("%scw%d"%(tag,a),V)
            I.fact(x!=s.ne); I.fact(V.is_num(x)) ; s.cw.append(x)
    def build(s):
        """the object; can be called twice to get two objects with the same content"""
        I,d=s.I,s.d; sh=tsh(d) if d>1 else 1
        if isinstance(sh,int) and d>1: sh=tsh(d)
        S=[I.alloc(SetRec((lambda k,f=f:f(k[0])),1)) for f in s.S]
        r=I.alloc(ObjRec(netcls(I,"MultiplexNetwork"),{}))
        couplings=[Tup([c,s.cw[a]]) if c!="none" else Tup(["none"]) for a,c in enumerate(s.coup)]
        f={"aspects":d,"directed":s.directed,"noEdge":s.ne,"fullyInterconnected":s.fic,"slices":I.alloc(ListRec([Part((),TRUE,x) for x in S])),
           "couplings":I.alloc(ListRec([Part((),TRUE,c) for c in couplings]))}
        wp=netcls(I,"MultilayerNetworkWithParent"); parent=r; ne=s.ne
        def intra(l):
            l=list(l)
            g={"aspects":0,"directed":s.directed,"noEdge":ne,"fullyInterconnected":True,"slices":ListRec([Part((),TRUE,S[0] if s.fic else SetRec((lambda k,l=l:s.IN(l,k[0])),1))]),
               "$W":FunRec((lambda k,l=l:s.IW(l,k[0],k[1])),2),"parent":parent,"$family":True}
            if not s.fic: g["_layer"]=l[0] if d==1 else TC[d](*l); g["_name"]=TC[d](*l)
            return ObjRec(wp,g)
        dic=I.alloc(DictRec(lambda l:s.L(l),intra,sh))
        A=I.alloc(ObjRec(netcls(I,"MultiplexIntraNetDict"),{"_net":r,"_dict":dic})); f["A"]=f["intranets"]=A
        if not s.fic:
            DN=z3.Function("DN",V,B); u=fresh_consts(s.n,"u"); I.fact(FORALL(u,IMP(s.NLf(*u),DN(u[0])))); 
            k=fresh_consts(1)[0]; I.fact(FORALL([k],IMP(DN(k),s.S[0](k))))
            f["_nodeToLayers"]=I.alloc(DictRec(lambda k:DN(k[0]),lambda k:SetRec(lambda l:s.NLf(*(list(k)+list(l))),sh),1))
        I.put(r,ObjRec(netcls(I,"MultiplexNetwork"),f)); return r
    # ---- the abstract network before the call
    def W(s,u,v): return mW(s.d,s.ne,s.IW,s.L,s.IN,s.S[0],s.fic,s.coup,s.cw)(u,v)
def present(fic,S0,IN,u,v):
    """does the node of the supernodes u and v (same node, different layers) couple them"""
    return S0(u[0]) if fic else AND(IN(u[1:],u[0]),IN(v[1:],u[0]))
def couples(coup,x,y):
    if coup=="categorical": return TRUE
    if coup=="ordinal": return AND(V.is_num(x),V.is_num(y),OR(V.nv(x)+1==V.nv(y),V.nv(y)+1==V.nv(x)))
    return FALSE
def mW(d,ne,IW,L,IN,S0,fic,coup,cw):
    """the weight of an edge between two node-layers (whose layers exist)"""
    def W(u,v):
        u,v=list(u),list(v); r=ne
        for a in range(1,d+1):
            c=AND(u[0]==v[0],u[a]!=v[a],*[u[b]==v[b] for b in range(1,d+1) if b!=a])
            r=ITE(AND(c,present(fic,S0,IN,u,v),couples(coup[a-1],u[a],v[a])),cw[a-1],r)
        return ITE(AND(u[0]!=v[0],eqc(u[1:],v[1:]),L(u[1:])),IW(u[1:],u[0],v[0]),r)
    return W
# ---- the abstract network after the call
def adict(I,net): return fields(I,fields(I,net)["A"])["_dict"]
def post_L(I,net):
    r=I.rec(adict(I,net)); return lambda l:r.dom(list(l))
def intrarec(I,net,l):
    r=I.rec(adict(I,net)); return r.val(list(l))
def post_IW(I,net):
    def f(l,i,j):
        o=intrarec(I,net,l); w=o.fields["$W"]; w=I.rec(w) if isinstance(w,Ref) else w; return w.fn([i,j])
    return f
def post_IN(I,net):
    def f(l,i):
        o=intrarec(I,net,l); sl=o.fields["slices"]; sl=I.rec(sl) if isinstance(sl,Ref) else sl; x=sl.parts[0].val; x=I.rec(x) if isinstance(x,Ref) else x
        return AND(post_L(I,net)(l),x.mem([i]))
    return f
def post_W(m,net):
    I=m.I; S0=lambda k:slice_mem(I,net,0,k); return mW(m.d,m.ne,post_IW(I,net),post_L(I,net),post_IN(I,net),S0,m.fic,m.coup,m.cw)
def inv(m,net):
    """representation invariant after the call"""
    I=m.I; d=m.d; L,IN,IW=post_L(I,net),post_IN(I,net),post_IW(I,net); l=fresh_consts(d,"l"); i,j=fresh_consts(2,"i"); out=[]
    out.append(("there is one intra-layer network for every layer",FORALL(l,L(l)==AND(*[slice_mem(I,net,a+1,x) for a,x in enumerate(l)]))))
    out.append(("layers contain nodes of the network only",FORALL(l+[i],IMP(IN(l,i),slice_mem(I,net,0,i)))))
    out.append(("intra-layer edges join nodes of the layer",FORALL(l+[i,j],IMP(AND(L(l),IW(l,i,j)!=m.ne),AND(IN(l,i),IN(l,j))))))
    if not m.directed: out.append(("intra-layer networks are symmetric",FORALL(l+[i,j],IMP(L(l),IW(l,i,j)==IW(l,j,i)))))
    if m.fic: out.append(("all layers have the nodes of the network",FORALL(l+[i],IMP(L(l),IN(l,i)==slice_mem(I,net,0,i)))))
    else:
        r=I.rec(fields(I,net)["_nodeToLayers"])
        def m2(i,l):
            s=shapel(r.val([i]),d); return AND(r.dom([i]),s.mem(list(l)))
        out.append(("the node-layer table agrees with the layers",FORALL(l+[i],m2(i,l)==IN(l,i))))
    x=intrarec(I,net,l); p=x.fields.get("parent")
    out.append(("intra-layer networks belong to the network",z3.BoolVal(isinstance(p,Ref) and p.oid==net.oid)))
    out.append(("intra-layer networks have the options of the network",AND(z3.BoolVal(x.fields["directed"]==m.directed and x.fields["aspects"]==0),FORALL(l,IMP(L(l),EQ(toV(x.fields["noEdge"]),m.ne))))))
    if m.fic:
        sl=x.fields["slices"]; sl=I.rec(sl) if isinstance(sl,Ref) else sl; q=sl.parts[0].val
        out.append(("all layers share the set of nodes",z3.BoolVal(isinstance(q,Ref) and q.oid==slice_ref(I,net,0).oid)))
    else:
        out.append(("intra-layer networks know their layer",FORALL(l,IMP(L(l),toV(x.fields["_layer"])==(l[0] if d==1 else TC[d](*l))))))
    return out
def unchanged(m,net,W=True,nodes=True,slices=True):
    I=m.I; d=m.d; out=[]; l=fresh_consts(d,"l"); i,j=fresh_consts(2,"i")
    if slices:
        for a in range(m.n): out.append(("slice %d unchanged"%a,FORALL([i],slice_mem(I,net,a,i)==m.S[a](i))))
    if nodes: out.append(("node-layers unchanged",FORALL(l+[i],post_IN(I,net)(l,i)==m.IN(l,i))))
    if W: out.append(("intra-layer edges unchanged",FORALL(l+[i,j],IMP(m.L(l),post_IW(I,net)(l,i,j)==m.IW(l,i,j)))))
    return out
COUPS={1:[("categorical",),("ordinal",),("none",)],2:[("categorical","categorical"),("ordinal","categorical"),("categorical","none"),("ordinal","ordinal"),("none","none")]}
def mvariants(dmax):
    for d in range(1,dmax+1):
        for coup in COUPS[d]:
            for directed in (False,True):
                for fic in (True,False): yield d,directed,fic,coup
def mlab(d,directed,fic,coup): return "multiplex %s %s %s"%("/".join(coup),"directed" if directed else "undirected","full" if fic else "partial")
def supernode(m,tag):
    u=[z3.Const("%s%d"%(tag,i),V) for i in range(m.n)]; m.I.fact(nname(u[0],0))
    m.I.fact(m.L(u[1:])); m.I.fact(m.S[0](u[0])); return u
# ------------------------------------------------------------------ contracts over the pre-state
def mparts(m,u,dims,how):
    """neighbours of u: one part per aspect that may differ; (vars, condition, neighbour, weight out, weight in)"""
    out=[]
    for a in range(m.n):
        if dims is not None and dims[a] is not None: continue
        x=fresh_consts(1,"x")[0]; v=list(u); v[a]=x
        if a==0:
            o,i=m.IW(u[1:],u[0],x),m.IW(u[1:],x,u[0]); eo,ei=o!=m.ne,i!=m.ne
            if not m.directed: how="out"
            c={"out":eo,"in":ei,"total":OR(eo,ei)}[how]
        else:
            o=i=m.cw[a-1]; c=AND(x!=u[a],m.S[a](x) if m.fic else TRUE,m.S[0](u[0]) if m.fic else AND(m.IN(u[1:],u[0]),m.IN(v[1:],u[0])),couples(m.coup[a-1],u[a],x))
        out.append((a,x,c,v,o,i))
    return out
def sp_iter(how):
    def f(m,u,dims): return Seq([Part((x,),c,Tup(v)) for a,x,c,v,o,i in mparts(m,u,dims,how)])
    return f
def sp_deg(how):
    def f(m,u,dims):
        t=z3.RealVal(0)
        for a,x,c,v,o,i in mparts(m,u,dims,how): t=t+SUM([x],c,z3.RealVal(1))
        return t
    return f
def sp_str(how):
    def f(m,u,dims):
        t=z3.RealVal(0)
        for h in (["out","in"] if how=="total" and m.directed else [how]):
            for a,x,c,v,o,i in mparts(m,u,dims,h):
                if a and h=="in" and how=="total": continue      # couplings are counted once
                t=t+SUM([x],c,real(i if h=="in" else o))
        return t
    return f
METH=[("_iter_neighbors_out",sp_iter("out"),"any"),("_iter_neighbors_in_dir",sp_iter("in"),"any"),("_iter_neighbors_total_dir",sp_iter("total"),"any"),
      ("_get_degree_out",sp_deg("out"),"any"),("_get_degree_in_dir",sp_deg("in"),"any"),("_get_degree_total_dir",sp_deg("total"),"any"),
      ("_get_strength_out",sp_str("out"),"num"),("_get_strength_in_dir",sp_str("in"),"num"),("_get_strength_total_dir",sp_str("total"),"num")]
def mpoints(u,coup):
    """the layers that the sums over couplings single out"""
    out=[[x] for x in u[1:]]
    for x,c in zip(u[1:],coup):
        if c=="ordinal": out+=[[V.num(V.nv(x)+1)],[V.num(V.nv(x)-1)]]
    return out
def reading(dmax):
    for d,directed,fic,coup in mvariants(dmax):
        L=mlab(d,directed,fic,coup)
        def get(s,mode,a=(d,directed,fic,coup),L=L):
            def setup(I):
                m=MX(I,*a); r=m.build(); u,v=supernode(m,"u"),supernode(m,"v")
                return {"args":[r,Tup(interleave(u,v))],"sargs":[],"post":[lambda I,res,_:unchanged(m,r)],"m":m,"uv":(u,v)}
            st={}
            def setup2(I): st["c"]=setup(I); return st["c"]
            s.case(MP+"_get_link",L,setup2,spec=lambda I:st["c"]["m"].W(*st["c"]["uv"]))
        reg("mplex","_get_link "+L,get,("view",))
        for q,sp,wt in METH:
            if q.endswith("_dir") and not directed: continue
            for pat in itertools.product((0,1),repeat=d+1):
                if d==2 and sum(pat) not in (0,1,d): continue
                def f(s,mode,a=(d,directed,fic,coup),L=L,q=q,sp=sp,wt=wt,pat=pat):
                    st={}
                    def setup(I):
                        m=MX(I,*a,weights=wt); r=m.build(); u=supernode(m,"u")
                        dims=None if not any(pat) else [x if p else None for x,p in zip(u,pat)]
                        st.update(m=m,u=u,dims=dims)
                        da=dims if dims is None else I.alloc(ListRec([Part((),TRUE,x) for x in dims]))
                        return {"points":mpoints(u,a[3]),"args":[r,Tup(u),da],"sargs":[],"post":[lambda I,res,_:unchanged(m,r)]}
                    s.case(MP+q,L+" dims="+("none" if not any(pat) else "".join("k." [1-p] for p in pat)),setup,spec=lambda I:sp(st["m"],st["u"],st["dims"]))
                reg("mplex","%s %s %s"%(q,L,pat),f,("view",),0 if d==1 else 1)
reading(2)

# ------------------------------------------------------------------ writing
def mxsame(m,a,b):
    """the two multiplex networks have the same content"""
    I=m.I; d=m.d; out=[]; l=fresh_consts(d,"l"); i,j=fresh_consts(2,"i")
    for q in range(m.n): out.append(("slice %d"%q,FORALL([i],slice_mem(I,a,q,i)==slice_mem(I,b,q,i))))
    out.append(("layers",FORALL(l,post_L(I,a)(l)==post_L(I,b)(l))))
    out.append(("node-layers",FORALL(l+[i],post_IN(I,a)(l,i)==post_IN(I,b)(l,i))))
    out.append(("edges",FORALL(l+[i,j],IMP(post_L(I,a)(l),post_IW(I,a)(l,i,j)==post_IW(I,b)(l,i,j)))))
    f,g=fields(I,a),fields(I,b)
    for x in ("aspects","directed","fullyInterconnected"): out.append((x,z3.BoolVal(f[x]==g[x])))
    out.append(("no-edge value",EQ(toV(f["noEdge"]),toV(g["noEdge"]))))
    out.append(("couplings",tobool(I.eq(f["couplings"],g["couplings"]))))
    return out
def layername(m,l,a):
    """a valid name for an elementary layer"""
    m.I.fact(lname(l,m.d))
    if m.coup[a-1]=="ordinal": m.I.fact(V.is_num(l))
def newlayer(m,tag):
    l=[z3.Const("%s%d"%(tag,i),V) for i in range(m.d)]
    for i,x in enumerate(l): layername(m,x,i+1)
    return l
def newnode(m,tag="x"):
    x=z3.Const(tag,V); m.I.fact(nname(x,0)); return x
def wcase(s,qual,L,a,args,spec=None,**more):
    """args(I,m,r) -> arguments for the network r; run on the real code and on the contract, from the same content"""
    def setup(I):
        m=MX(I,*a); r,v=m.build(),m.build(); x=args(I,m); more.update(m=m)
        def f(net): return [y(net) if callable(y) and not isz(y) else y for y in x]
        pre=I.st
        return dict({"args":f(r),"sargs":f(v),"post":[lambda I,res,_:mxsame(m,r,v)+[x for x in inv(m,r) if not any(y in x[0] for y in more.get("noinv",()))]],"result":False},**{k:q for k,q in more.items() if k not in("m","noinv")})
    s.case(qual,L,setup,spec=spec)
def writing(dmax):
    for d,directed,fic,coup in mvariants(dmax):
        if coup not in COUPS[d][:2 if d==1 else 1]: continue
        L=mlab(d,directed,fic,coup); a=(d,directed,fic,coup); T=0
        def R(key,qual,args,spec=None,L=L,a=a,tier=0,lab="",**more):
            reg("mplexw","%s %s %s"%(key,L,lab),lambda s,mode:wcase(s,qual,L+(" "+lab if lab else ""),a,args,spec,**dict(more)),("view",),tier)
        me=lambda net:net
        intra=lambda I,l:(lambda net:mxintraref(I,net,l))
        A=lambda I:(lambda net:fields(I,net)["A"])
        def lc(I,m):
            l=newlayer(m,"l"); return l
        R("_add_empty_network",AD+"_add_empty_network",lambda I,m,d=d:(lambda l:(I.fact(m.L(l)),[A(I),layerval(l)])[1])(lc(I,m)),noinv=("table",))
        for q in range(0,d+1):
            def args(I,m,q=q):
                x=newnode(m) if q==0 else z3.Const("x",V)
                if q: layername(m,x,q)
                return [me,x,q]
            R("add_layer",MP+"add_layer",args,lab="aspect=%d"%q)
        R("add_node",M+"add_node",lambda I,m:[me,newnode(m)])
        def args(I,m):
            x=newnode(m); l=lc(I,m); return [me,x,layerval(l)]
        R("add_node",M+"add_node",args,lab="layer")
        def args(I,m):
            x=newnode(m); l=lc(I,m); I.fact(m.L(l)); return [intra(I,l),x]
        R("intra add_node",WP+"add_node",args)
        def args(I,m):
            x,y=newnode(m,"x"),newnode(m,"y"); l=lc(I,m); I.fact(m.L(l)); I.fact(x!=y); return [intra(I,l),Tup([x,y]),z3.Const("w",V)]
        R("intra __setitem__",M+"__setitem__",args)
        if not fic:
            def args(I,m):
                x=newnode(m); l=lc(I,m); I.fact(m.L(l)); I.fact(m.S[0](x)); return [me,x,layerval(l)]
            R("_add_node_to_layer",MP+"_add_node_to_layer",args)
        def args(I,m):
            u,v=[newnode(m,"x")]+newlayer(m,"l"),[newnode(m,"y")]+newlayer(m,"k"); I.fact(m.L(u[1:])); I.fact(m.L(v[1:])); I.fact(AND(m.IN(u[1:],u[0]),m.IN(v[1:],v[0]))); return [me,Tup(interleave(u,v)),z3.Const("w",V)]
        R("_set_link",MP+"_set_link",args)
        for form in ("link","short"):
            def args(I,m,form=form):
                u,v=[newnode(m,"x")]+newlayer(m,"l"),[newnode(m,"y")]+newlayer(m,"k")
                return [me,Tup(interleave(u,v)) if form=="link" else Tup([u[0],v[0]]+u[1:]),z3.Const("w",V)]
            R("__setitem__",M+"__setitem__",args,spec=mx_set,lab=form)
writing(2)
# ------------------------------------------------------------------ the reading contracts in terms of the weight function
def lemmas(dmax):
    for d,directed,fic,coup in mvariants(dmax):
        L=mlab(d,directed,fic,coup)
        for how in ("out","in","total"):
            if how!="out" and not directed: continue
            for pat in itertools.product((0,1),repeat=d+1):
                def f(s,mode,a=(d,directed,fic,coup),L=L,how=how,pat=pat):
                    I=Interp(s.repo,CT,deadline=s.deadline); m=MX(I,*a); u=supernode(m,"u"); n=m.n
                    dims=None if not any(pat) else [x if p else None for x,p in zip(u,pat)]
                    hy=[t for _,t in I.st.pc]; v=fresh_consts(n,"v"); W=m.W; s.paths+=1; s.live+=1
                    wo,wi=W(u,v),W(v,u); ex={"out":wo!=m.ne,"in":wi!=m.ne,"total":OR(wo!=m.ne,wi!=m.ne)}[how]
                    mt=TRUE if dims is None else AND(*[y==x for x,y in zip(dims,v) if x is not None])
                    # node-layers whose layers exist; at least one index must be free, a node-layer is no neighbour of itself
                    nl=AND(m.L(v[1:]),*( [m.S[0](v[0])] ))
                    seq=sp_iter(how)(m,u,dims); nm="neighbours by weight [%s %s %s]"%(L,how,pat)
                    s.add(nm+": neighbours are the node-layers with an edge",hy,FORALL(v,IMP(nl,bagmem(seq,v,n)==AND(ex,mt))))
                    s.add(nm+": neighbours are node-layers of the network",hy,FORALL(v,IMP(bagmem(seq,v,n),nl)))
                    s.add(nm+": no neighbour twice",hy,nodup(seq,n))
                    for q,x,c,t,o,i in mparts(m,u,dims,how):
                        s.add(nm+": weights",hy,FORALL([x],IMP(c,AND(W(u,t)==o,W(t,u)==i))))
                    if not directed: y=fresh_consts(n,"y"); s.add(nm+": symmetric",hy,FORALL(v+y,IMP(AND(m.L(v[1:]),m.L(y[1:])),W(v,y)==W(y,v))))
                reg("mplexl","lemma %s %s %s"%(L,how,pat),f,("view",))
lemmas(2)
# ------------------------------------------------------------------ nodes, layers, indexing, construction, equality
def sp_nodes(m,layer=None):
    x=z3.FreshConst(V,"x")
    if layer is None or m.fic: return Seq([Part((x,),m.S[0](x),x)])
    return Seq([Part((x,),m.IN(layer,x),x)])
def sp_nl(m):
    u=fresh_consts(m.n,"u"); return Seq([Part(tuple(u),AND(m.IN(u[1:],u[0]),m.L(u[1:])),Tup(u))])
def sp_layers(m,a=None):
    if a: x=z3.FreshConst(V,"x"); return Seq([Part((x,),m.S[a](x),x)])
    l=fresh_consts(m.d,"l"); return Seq([Part(tuple(l),m.L(l),layerval(l))])
def listing(dmax):
    for d,directed,fic,coup in mvariants(dmax):
        if directed or coup!=COUPS[d][0]: continue
        L=mlab(d,directed,fic,coup); a=(d,directed,fic,coup)
        def R(key,qual,args,spec,a=a,L=L,lab="",post=True):
            def f(s,mode):
                st={}
                def setup(I):
                    m=MX(I,*a); r=m.build(); st.update(m=m,r=r)
                    return {"args":args(I,m,r),"sargs":[],"post":[lambda I,res,_:unchanged(m,r)]}
                s.case(qual,L+" "+lab,setup,spec=lambda I:spec(I,st["m"],st))
            reg("mplexi","%s %s %s"%(key,L,lab),f,("view",))
        R("iter_nodes",MP+"iter_nodes",lambda I,m,r:[r],lambda I,m,st:sp_nodes(m))
        def args(I,m,r):
            l=newlayer(m,"l"); I.fact(m.L(l)); m.l=l; return [r,layerval(l)]
        R("iter_nodes",MP+"iter_nodes",args,lambda I,m,st:sp_nodes(m,m.l),lab="layer")
        R("iter_node_layers",M+"iter_node_layers",lambda I,m,r:[r],lambda I,m,st:sp_nl(m))
        R("iter_layers",M+"iter_layers",lambda I,m,r:[r],lambda I,m,st:sp_layers(m))
        for q in range(1,d+1): R("iter_layers",M+"iter_layers",lambda I,m,r,q=q:[r,q],lambda I,m,st,q=q:sp_layers(m,q),lab="aspect %d"%q)
        R("__iter__",M+"__iter__",lambda I,m,r:[r],lambda I,m,st:sp_nodes(m))
        R("__len__",M+"__len__",lambda I,m,r:[r],lambda I,m,st:SUM(*(lambda x:([x],m.S[0](x),z3.RealVal(1)))(z3.FreshConst(V,"x"))))
        def args(I,m,r):
            l=newlayer(m,"l"); I.fact(m.L(l)); m.l=l; return [fields(I,r)["A"],layerval(l)]
        R("A __getitem__",AD+"__getitem__",args,lambda I,m,st:mxintraref(I,st["r"],m.l))
        R("A __iter__",AD+"__iter__",lambda I,m,r:[fields(I,r)["A"]],lambda I,m,st:sp_layers(m))
listing(2)
def indexing(dmax):
    for d,directed,fic,coup in mvariants(dmax):
        if coup!=COUPS[d][0]: continue
        L=mlab(d,directed,fic,coup); a=(d,directed,fic,coup); n=d+1
        for nm in ("node","link","short","colon"):
            def f(s,mode,a=a,nm=nm,L=L,n=n):
                st={}
                def setup(I):
                    m=MX(I,*a); r=m.build(); u,v=supernode(m,"u"),supernode(m,"v")
                    it={"node":Tup(u),"link":Tup(interleave(u,v)),"short":Tup([u[0],v[0]]+u[1:]),"colon":Tup(interleave(u,[SliceV(None,None,None)]+v[1:]))}[nm]
                    st.update(m=m,r=r,u=u,v=v); return {"args":[r,it],"sargs":[],"post":[lambda I,res,_:unchanged(m,r)]}
                def spec(I):
                    m,r,u,v=st["m"],st["r"],st["u"],st["v"]
                    if nm=="node": return mknode(I,r,u,None)
                    if nm=="colon": return mknode(I,r,u,[None]+v[1:])
                    return m.W(u,v if nm=="link" else v[:1]+u[1:])
                s.case(M+"__getitem__",L+" "+nm,setup,spec=spec)
            reg("mplexi","__getitem__ %s %s"%(L,nm),f,("view",))
        for q,sp,how,num in [("deg",sp_deg,"total",0),("deg_total",sp_deg,"total",0),("deg_in",sp_deg,"in",0),("deg_out",sp_deg,"out",0),("str",sp_str,"total",1),("str_total",sp_str,"total",1),("str_in",sp_str,"in",1),("str_out",sp_str,"out",1),
                    ("__iter__",sp_iter,"total",0),("iter_total",sp_iter,"total",0),("iter_out",sp_iter,"out",0),("iter_in",sp_iter,"in",0)]:
            def f(s,mode,a=a,q=q,sp=sp,how=how,num=num,L=L):
                st={}
                def setup(I):
                    m=MX(I,*a,weights="num" if num else "any"); r=m.build(); u=supernode(m,"u"); st.update(m=m,u=u)
                    return {"args":[mknode(I,r,u,None)],"sargs":[],"post":[lambda I,res,_:unchanged(m,r)],"points":mpoints(u,a[3])}
                s.case(MN+q,L,setup,spec=lambda I:sp(how if st["m"].directed else "out")(st["m"],st["u"],None))
            reg("mplexi","node %s %s"%(q,L),f,("view",),0 if d==1 else 1)
        for kinds in ([("categorical",),("ordinal",),("none",)] if d==1 else [("categorical","ordinal")]):
          for arg in ("policies","weights"):
            def f(s,mode,a=a,L=L,kinds=kinds,arg=arg,d=d,directed=directed,fic=fic):
                def setup(I):
                    r=I.alloc(ObjRec(netcls(I,"MultiplexNetwork"),{})); ne=z3.Const("noEdge",V); ws=[z3.Const("cw%d"%i,V) for i in range(d)]
                    c=[k if arg=="policies" else Tup([k,w]) for k,w in zip(kinds,ws)]
                    def post(I,res,_):
                        m=MX.__new__(MX); m.I,m.d,m.n,m.directed,m.fic,m.ne=I,d,d+1,directed,fic,ne; out=[]; x=fresh_consts(1,"x")[0]
                        for q in range(d+1): out.append(("no nodes and layers (%d)"%q,FORALL([x],NOT(slice_mem(I,r,q,x)))))
                        fl=fields(I,r); out.append(("number of aspects and options",z3.BoolVal(fl["aspects"]==d and fl["directed"]==directed and fl["fullyInterconnected"]==fic)))
                        out.append(("no-edge value",toV(fl["noEdge"])==ne)); cs=I.seqof(fl["couplings"]).items()
                        out.append(("number of couplings",z3.BoolVal(len(cs)==d)))
                        for p,k,w in zip(cs,kinds,ws): out.append(("coupling "+k,tobool(I.eq(p,Tup([k,w if arg=="weights" else 1.0])))))
                        ad=I.rec(fl["A"]); out.append(("intra-layer networks",AND(z3.BoolVal(ad.fields["_net"].oid==r.oid and fl["intranets"].oid==fl["A"].oid),FORALL([x],NOT(I.rec(ad.fields["_dict"]).dom([x]))))))
                        if not fic: out.append(("node-layer table",FORALL([x],NOT(I.rec(fl["_nodeToLayers"]).dom([x])))))
                        return out
                    return {"args":[r],"kw":{"couplings":I.alloc(ListRec([Part((),TRUE,k) for k in c])) if d>1 or arg=="policies" else c[0],"directed":directed,"noEdge":ne,"fullyInterconnected":fic},"sargs":[],"skw":{},"post":[post],"result":False}
                s.case(MP+"__init__",L+" %s %s"%(kinds,arg),setup,spec=lambda I:None)
            reg("mplexi","__init__ %s %s %s"%(L,kinds,arg),f,("view",))
indexing(2)

# ------------------------------------------------------------------ copying into layers and between multiplex networks
T="pymnet.transforms."
import cases_trans
def copying(dmax):
    for d,directed,fic,coup in mvariants(dmax):
        if coup!=COUPS[d][0]: continue
        L=mlab(d,directed,fic,coup); a=(d,directed,fic,coup)
        for how in ("subnet","subnet nolinks","A __setitem__"):
            def f(s,mode,a=a,L=L,how=how,d=d,directed=directed,fic=fic):
                def setup(I):
                    m=MX(I,*a); r,v=m.build(),m.build(); l=newlayer(m,"l"); I.fact(m.L(l))
                    g,F=mknet(I,0,directed,True,"view","view",tag="g",noEdge=m.ne); h,_=mknet(I,0,directed,True,"view","view",tag="g",funs=F)
                    x=fresh_consts(1); I.fact(FORALL(x,F["W"](x+x)==m.ne))
                    if how!="A __setitem__": y=fresh_consts(2,"y"); I.fact(FORALL(y,m.IW(l,*y)==m.ne))
                    post=[lambda I,res,_:mxsame(m,r,v)+inv(m,r)]
                    if how=="A __setitem__": return {"args":[fields(I,r)["A"],layerval(l),g],"sargs":[fields(I,v)["A"],layerval(l),h],"nets":[(g,h)],"post":post}
                    nl=how.endswith("nolinks"); sel=I.alloc(SetRec(lambda k:z3.Function("sel",V,B)(k[0])))
                    kw=lambda n:dict([("newNet",mxintraref(I,n,l))]+([("nolinks",True)] if nl else []))
                    return {"args":[g,sel],"kw":kw(r),"sargs":[h,sel],"skw":kw(v),"nets":[(g,h)],"keep":[sel],"post":post,"result":False}
                if how=="A __setitem__": s.case(AD+"__setitem__",L,setup,spec=c_ad_set)
                else: s.case(T+"subnet","into "+L+" "+how,setup)
            reg("mplexc","%s %s"%(how,L),f,("view",))
def mx_new(I,m):
    """an empty multiplex network with the options of m"""
    r=I.alloc(ObjRec(netcls(I,"MultiplexNetwork"),{})); d=m.d; n=m.n
    f={"aspects":d,"directed":m.directed,"noEdge":m.ne,"fullyInterconnected":m.fic,"slices":I.alloc(ListRec([Part((),TRUE,I.alloc(SetRec(lambda k:FALSE,1))) for _ in range(n)])),"couplings":None}
    return r,f
@contract(N+"MultiplexNetwork")
def c_newmx(I,couplings=None,directed=False,noEdge=0,fullyInterconnected=True):
    cs=I.seqof(couplings).items() if isinstance(couplings,Ref) else [couplings]; out=[]
    for c in cs:
        if c is None: c=Tup(["none"])
        elif type(c) is str: c=Tup([c,1.0])
        elif isinstance(c,Tup) and len(c.items)==1 and c.items[0] in ("categorical","ordinal"): c=Tup([c.items[0],1.0])
        elif not isinstance(c,Tup) or c.items[0] not in ("categorical","ordinal","none"): return NotImplemented
        out.append(Part((),TRUE,c))
    d=len(out); directed,fic=I.hostbool(directed),I.hostbool(fullyInterconnected)
    r=I.alloc(ObjRec(netcls(I,"MultiplexNetwork"),{})); sh=tsh(d) if d>1 else 1
    f={"aspects":d,"directed":directed,"noEdge":noEdge,"fullyInterconnected":fic,"slices":I.alloc(ListRec([Part((),TRUE,I.alloc(SetRec(lambda k:FALSE,1))) for _ in range(d+1)])),"couplings":I.alloc(ListRec(out))}
    dic=I.alloc(DictRec(lambda l:FALSE,lambda l:mxintra(I,r,l),sh))
    f["A"]=f["intranets"]=I.alloc(ObjRec(netcls(I,"MultiplexIntraNetDict"),{"_net":r,"_dict":dic}))
    if not fic: f["_nodeToLayers"]=I.alloc(DictRec(lambda k:FALSE,lambda k:SetRec(lambda l:FALSE,sh),1))
    I.put(r,ObjRec(netcls(I,"MultiplexNetwork"),f)); return r
def subsel(I,m,sel):
    """membership in the chosen names (None: all)"""
    return [m.S[a] if f is None else (lambda k,f=f,a=a:AND(m.S[a](k),f(k))) for a,f in enumerate(sel)]
def post_subnet(m,sel,src,dst,nolinks=False,new=None):
    """dst is the part of m on the chosen names"""
    I=m.I; d=m.d; S=subsel(I,m,sel); l=fresh_consts(d,"l"); i,j=fresh_consts(2,"i"); out=[]; Lc=AND(*[S[a+1](x) for a,x in enumerate(l)])
    inn=AND(Lc,S[0](i)) if m.fic else AND(Lc,S[0](i),m.IN(l,i))
    for a in range(1,m.n): out.append(("layers of aspect %d"%a,FORALL([i],slice_mem(I,dst,a,i)==S[a](i))))
    if m.fic: out.append(("nodes",FORALL([i],slice_mem(I,dst,0,i)==S[0](i))))
    else:
        w=fresh_consts(d,"w"); out.append(("nodes",FORALL([i],slice_mem(I,dst,0,i)==EXISTS(w,[AND(*[S[a+1](x) for a,x in enumerate(w)]),S[0](i),m.IN(w,i)]))))
    out.append(("node-layers",FORALL(l+[i],post_IN(I,dst)(l,i)==inn)))
    q=AND(Lc,S[0](i),S[0](j))
    out.append(("edges",FORALL(l+[i,j],IMP(Lc,post_IW(I,dst)(l,i,j)==(m.ne if nolinks else ITE(q,m.IW(l,i,j),m.ne))))))
    f=fields(I,dst); out.append(("options",z3.BoolVal(f["aspects"]==d and f["directed"]==m.directed and f["fullyInterconnected"]==m.fic and I.rec(dst).cls.name=="MultiplexNetwork")))
    out.append(("no-edge value",EQ(toV(f["noEdge"]),m.ne))); out.append(("couplings",tobool(I.eq(f["couplings"],fields(I,src)["couplings"]))))
    shared=reach(I.st,src)&reach(I.st,dst)
    out.append(("shares no storage with the input",z3.BoolVal(not shared)))
    return out
def msubnet(dmax):
    for d,directed,fic,coup in mvariants(dmax):
        if coup!=COUPS[d][0] and (d>1 or directed): continue
        L=mlab(d,directed,fic,coup); a=(d,directed,fic,coup)
        for how in ("set","none","nolinks","new"):
            def f(s,mode,a=a,L=L,how=how,d=d,directed=directed,fic=fic):
                def setup(I):
                    m=MX(I,*a); r=m.build(); fs=[z3.Function("sel%d"%q,V,B) for q in range(d+1)]
                    sel=[None if how=="none" else I.alloc(SetRec((lambda k,g=g:g(k[0])),1)) for g in fs]; kw={}
                    if how=="nolinks": kw={"nolinks":True}
                    if how=="new": kw={"newNet":c_newmx(I,I.alloc(ListRec(I.rec(fields(I,r)["couplings"]).parts)),directed,m.ne,fic)}
                    post=[lambda I,res,_:post_subnet(m,[None if how=="none" else g for g in fs],r,res,how=="nolinks")+unchanged(m,r)+[("result: "+n,g) for n,g in invof(m,res)]]
                    if how=="new": post.append(lambda I,res,_:[("result is the given network",z3.BoolVal(isinstance(res,Ref) and res.oid==kw["newNet"].oid))])
                    return {"args":[r]+sel,"kw":kw,"sargs":[],"skw":{},"keep":[x for x in sel if x is not None],"post":post,"result":False}
                s.case(T+"subnet",L+" "+how,setup,spec=lambda I:None)
            reg("mplexs","subnet %s %s"%(L,how),f,("view",))
def invof(m,net): return inv(m,net)
msubnet(2)
@contract(AD+"__setitem__")
def c_ad_set(I,self,key,val):
    net=fields(I,self)["_net"]; lc=layercomps(I,net,key); fic=fields(I,net)["fullyInterconnected"]; d=D(I,net)
    if not fic:
        t=fields(I,net)["_nodeToLayers"]; r=I.rec(t); sh=tsh(d) if d>1 else 1
        if not r.empty: I.put(t,DictRec(r.dom,lambda k:SetRec(lambda l:AND(NOT(eqc(l,lc)),shapel(r.val(list(k)),d).mem(list(l))),sh),1))
    g=mxintraref(I,net,lc); I.put(g,mxintra(I,net,lc))
    cases_trans.c_subnet(I,val,val,newNet=g)
copying(2)
