"""Cases of pymnet.net.MultilayerNetwork, MultilayerNode and MultilayerEdges."""
from verify import *
def nlc(I,d,tag):
    u=[z3.Const("%s%d"%(tag,i),V) for i in range(d+1)]; I.fact(nlname(u,d)); return u
def two(I,d,directed,fic,mode,weights="any",links=None,nodes=None):
    links=links or mode; nodes=nodes or mode
    r,F=mknet(I,d,directed,fic,links,nodes,weights); v,_=mknet(I,d,directed,fic,"view","view",weights,funs=F); return r,v,F
def dims_arg(I,d,how):
    if how=="none": return None
    if how=="list": return I.alloc(ListRec([Part((),TRUE,z3.Const("m%d"%i,V)) for i in range(d+1)]))
    return Tup([z3.Const("m%d"%i,V) for i in range(d+1)])
def variants(dmax,fics=(True,)):
    for d in range(dmax+1):
        for directed in (False,True):
            for fic in fics:
                if d==0 and not fic: continue
                yield d,directed,fic
def lab(d,directed,fic): return "d=%d %s %s"%(d,"directed" if directed else "undirected","full" if fic else "partial")

REG=[]   # (group, key, minimal tier, modes, function(session, mode))
def reg(group,key,fn,modes=("view","rep"),tier=0): REG.append((group,key,tier,modes,fn))

def low(dmax):
    for d,directed,fic in variants(dmax):
        L=lab(d,directed,fic); T=0 if d<=2 else 1
        def get(s,mode,d=d,directed=directed,fic=fic,L=L):
            def setup(I):
                r,v,F=two(I,d,directed,fic,"rep"); u,w=nlc(I,d,"u"),nlc(I,d,"v"); k=Tup(interleave(u,w))
                return {"args":[r,k],"sargs":[v,k],"nets":[(r,v)]}
            s.case(M+"_get_link",L,setup)
        reg("store","_get_link "+L,get,("rep",),T)
        def set_(s,mode,d=d,directed=directed,fic=fic,L=L):
            def setup(I):
                r,v,F=two(I,d,directed,fic,"rep"); u,w=nlc(I,d,"u"),nlc(I,d,"v"); k=Tup(interleave(u,w)); x=z3.Const("w",V)
                return {"args":[r,k,x],"sargs":[v,k,x],"nets":[(r,v)],"points":[u,w]}
            s.case(M+"_set_link",L,setup)
        reg("store","_set_link "+L,set_,("rep",),T)
        for q in ("_iter_neighbors_out","_iter_neighbors_in_dir","_iter_neighbors_total_dir","_get_degree_out","_get_degree_in_dir","_get_degree_total_dir"):
            if q.endswith("_dir") and not directed: continue
            for how in ("none","list","tuple"):
                if how=="tuple" and d!=1: continue
                def f(s,mode,q=q,how=how,d=d,directed=directed,fic=fic,L=L):
                    def setup(I):
                        r,v,F=two(I,d,directed,fic,"rep"); u=nlc(I,d,"u"); m=dims_arg(I,d,how)
                        return {"args":[r,Tup(u),m],"sargs":[v,Tup(u),m],"nets":[(r,v)]}
                    s.case(M+q,L+" dims="+how,setup)
                reg("nbr","%s %s %s"%(q,L,how),f,("rep",),T)
        for q in ("_iter_neighbors","_iter_neighbors_in","_iter_neighbors_total","_get_degree","_get_degree_in","_get_degree_total"):
            for how in ("none","list"):
                def f(s,mode,q=q,how=how,d=d,directed=directed,fic=fic,L=L):
                    def setup(I):
                        r,v,F=two(I,d,directed,fic,mode); u=nlc(I,d,"u"); m=dims_arg(I,d,how)
                        return {"args":[r,Tup(u),m],"sargs":[v,Tup(u),m],"nets":[(r,v)]}
                    s.case(M+q,L+" dims="+how,setup)
                reg("nbr","%s %s %s"%(q,L,how),f,("view","rep"),T)
        for q in ("_get_strength_in_dir","_get_strength_out","_get_strength_total_dir","_get_strength","_get_strength_in","_get_strength_total"):
            if q.endswith("_dir") and not directed: continue
            for how in ("none","list"):
                def f(s,mode,q=q,how=how,d=d,directed=directed,fic=fic,L=L):
                    def setup(I):
                        r,v,F=two(I,d,directed,fic,mode,"num"); u=nlc(I,d,"u"); m=dims_arg(I,d,how)
                        return {"args":[r,Tup(u),m],"sargs":[v,Tup(u),m],"nets":[(r,v)]}
                    s.case(M+q,L+" dims="+how,setup)
                reg("str","%s %s %s"%(q,L,how),f,("view","rep"),T)
low(3)

# ------------------------------------------------------------------ nodes and layers (C04)
def layer_arg(I,d,how):
    if how=="none" or d==0: return None
    if d==1:
        l=z3.Const("l",V); I.fact(lname(l,1)); return l
    ls=[z3.Const("l%d"%i,V) for i in range(d)]
    for l in ls: I.fact(lname(l,d))
    return I.alloc(ListRec([Part((),TRUE,l) for l in ls])) if how=="list" else Tup(ls)
def nodes(dmax):
    for d,directed,fic in variants(dmax,(True,False)):
        if directed: continue
        L=lab(d,directed,fic); T=0 if d<=2 else 1
        for how in ("none","layer","list"):
            if (how=="list" and d<2) or (how!="none" and d==0): continue
            def an(s,mode,d=d,fic=fic,L=L,how=how):
                def setup(I):
                    r,v,F=two(I,d,False,fic,mode,links="view",nodes="rep"); n=z3.Const("n",V); I.fact(nname(n,d)); l=layer_arg(I,d,how)
                    return {"args":[r,n,l],"sargs":[v,n,l],"nets":[(r,v)]}
                s.case(M+"add_node",L+" layer="+how,setup)
            reg("nodes","add_node %s %s"%(L,how),an,("rep",),T)
            if how=="list": continue
            def inn(s,mode,d=d,fic=fic,L=L,how=how):
                def setup(I):
                    r,v,F=two(I,d,False,fic,mode,links="view",nodes="rep"); l=layer_arg(I,d,how)
                    return {"args":[r,l],"sargs":[v,l],"nets":[(r,v)]}
                s.case(M+"iter_nodes",L+" layer="+how,setup,spec=c_iter_nodes)
            reg("nodes","iter_nodes %s %s"%(L,how),inn,("rep",),T)
        for a in range(d+1):
            def al(s,mode,d=d,fic=fic,L=L,a=a):
                def setup(I):
                    r,v,F=two(I,d,False,fic,mode,links="view",nodes="rep"); n=z3.Const("n",V); I.fact(nname(n,d) if a==0 else lname(n,d))
                    return {"args":[r,n,a],"sargs":[v,n,a],"nets":[(r,v)]}
                s.case(M+"add_layer",L+" aspect=%d"%a,setup)
            reg("nodes","add_layer %s %d"%(L,a),al,("rep",),T)
        for a in [None]+list(range(d+2)):
            def il(s,mode,d=d,fic=fic,L=L,a=a):
                def setup(I):
                    r,v,F=two(I,d,False,fic,mode,links="view",nodes="rep")
                    return {"args":[r,a],"sargs":[v,a],"nets":[(r,v)]}
                s.case(M+"iter_layers",L+" aspect=%s"%a,setup,spec=c_iter_layers)
            reg("nodes","iter_layers %s %s"%(L,a),il,("rep",),T)
        for q,sp in (("iter_node_layers",c_iter_nl),("__iter__",c_iter),("__len__",c_len)):
            def f(s,mode,d=d,fic=fic,L=L,q=q,sp=sp):
                def setup(I):
                    r,v,F=two(I,d,False,fic,mode,links="view",nodes="rep")
                    return {"args":[r],"sargs":[v],"nets":[(r,v)]}
                s.case(M+q,L,setup,spec=sp)
            reg("nodes","%s %s"%(q,L),f,("rep",),T)
        for directed in (False,True):
            def ini(s,mode,d=d,fic=fic,directed=directed,L=lab(d,directed,fic)):
                def setup(I):
                    ci=I.repo.module("pymnet.net").classes["MultilayerNetwork"]; ne=z3.Const("noEdge",V)
                    r=I.alloc(ObjRec(ci,{})); v=I.alloc(ObjRec(ci,{}))
                    return {"args":[r],"kw":{"aspects":d,"noEdge":ne,"directed":directed,"fullyInterconnected":fic},"sargs":[v],"nets":[(r,v)]}
                s.case(M+"__init__",L,setup,spec=c_init)
            reg("nodes","__init__ %s"%lab(d,directed,fic),ini,("rep",),T)
nodes(3)

# ------------------------------------------------------------------ indexing (C01-C04)
def items(dmax):
    for d,directed,fic in variants(dmax,(True,False)):
        L=lab(d,directed,fic); T=0 if d<=2 else 1; n=d+1
        def names(I,d=d): return nlc(I,d,"u"),nlc(I,d,"v")
        forms=[("node",lambda u,v:Tup(u)),("link",lambda u,v:Tup(interleave(u,v)))]
        if n>1: forms.append(("short",lambda u,v:Tup([u[0],v[0]]+u[1:])))
        else: forms.append(("bare",lambda u,v:u[0]))
        forms.append(("wrong number",lambda u,v:Tup(interleave(u,v)+[u[0]])))
        sforms=list(forms)
        S=SliceV(None,None,None)
        for m in range(1,2**n):
            forms.append(("colons %s"%bin(m)[2:].rjust(n,"0"),lambda u,v,m=m,n=n:Tup(interleave(u,[S if m>>(n-1-i)&1 else x for i,x in enumerate(v)]))))
        if n>1:
            forms.append(("short colon node",lambda u,v:Tup([u[0],S]+u[1:])))
            forms.append(("short colon layer",lambda u,v:Tup([u[0],v[0],S]+u[2:])))
        for nm,mk_ in forms:
            if not fic: continue      # indexing for reading does not look at the node-layers
            def g(s,mode,d=d,directed=directed,fic=fic,L=L,nm=nm,mk_=mk_,names=names):
                def setup(I):
                    r,v,F=two(I,d,directed,fic,mode); it=mk_(*names(I))
                    return {"args":[r,it],"sargs":[v,it],"nets":[(r,v)]}
                s.case(M+"__getitem__",L+" "+nm,setup)
            reg("item","__getitem__ %s %s"%(L,nm),g,("view","rep"),T)
        for nm,mk_ in sforms:
            if nm=="node" and n!=1: pass
            def g(s,mode,d=d,directed=directed,fic=fic,L=L,nm=nm,mk_=mk_,names=names):
                def setup(I):
                    r,v,F=two(I,d,directed,fic,mode); u,w=names(I); it=mk_(u,w); x=z3.Const("w",V)
                    return {"args":[r,it,x],"sargs":[v,it,x],"nets":[(r,v)],"points":[u,w],"raisestate":True}
                s.case(M+"__setitem__",L+" "+nm,setup)
            reg("item","__setitem__ %s %s"%(L,nm),g,("view","rep"),T)
items(3)
def nodeviews(dmax):
    for d,directed,fic in variants(dmax,(True,)):
        L=lab(d,directed,fic); T=0 if d<=2 else 1; n=d+1
        for q,(kind,how) in sorted(NODE_METHODS.items())+[("__len__",("deg","total"))]:
            for restr in ("none","own","args","wrong"):
                if q=="__len__" and restr in ("args","wrong"): continue
                def f(s,mode,d=d,directed=directed,fic=fic,L=L,q=q,restr=restr,kind=kind):
                    def setup(I):
                        r,v,F=two(I,d,directed,fic,mode,"num" if kind=="str" else "any"); u=nlc(I,d,"u"); m=[z3.Const("m%d"%i,V) for i in range(d+1)]
                        a=m if restr=="args" else m+m[:1] if restr=="wrong" else []
                        if restr=="wrong" and d==0: a=m+m
                        l=m if restr=="own" else None
                        return {"args":[mknode(I,r,u,l)]+a,"sargs":[mknode(I,v,u,l)]+a,"nets":[(r,v)]}
                    s.case(MN+q,L+" "+restr,setup)
                reg("node" if kind=="deg" else "nodestr","%s %s %s"%(q,L,restr),f,("view","rep"),T)
        for q in ("__iter__","iter_total","iter_out","iter_in"):
            for restr in ("none","own"):
                def f(s,mode,d=d,directed=directed,fic=fic,L=L,q=q,restr=restr):
                    def setup(I):
                        r,v,F=two(I,d,directed,fic,mode); u=nlc(I,d,"u"); l=[z3.Const("m%d"%i,V) for i in range(d+1)] if restr=="own" else None
                        return {"args":[mknode(I,r,u,l)],"sargs":[mknode(I,v,u,l)],"nets":[(r,v)]}
                    s.case(MN+q,L+" "+restr,setup)
                reg("node","%s %s %s"%(q,L,restr),f,("view","rep"),T)
        for q in ("__getitem__","__setitem__"):
            for nm in ("link","colon"):
                if q=="__setitem__" and nm=="colon": continue
                def f(s,mode,d=d,directed=directed,fic=fic,L=L,q=q,nm=nm):
                    def setup(I):
                        r,v,F=two(I,d,directed,fic,mode); u,w=nlc(I,d,"u"),nlc(I,d,"v"); x=z3.Const("w",V)
                        if nm=="colon": w=[SliceV(None,None,None)]+w[1:]
                        it=w[0] if d==0 else Tup(w); a=[x] if q=="__setitem__" else []
                        return {"args":[mknode(I,r,u,None),it]+a,"sargs":[mknode(I,v,u,None),it]+a,"nets":[(r,v)]}
                    s.case(MN+q,L+" "+nm,setup)
                reg("item","node %s %s %s"%(q,L,nm),f,("view","rep"),T)
nodeviews(3)

# ------------------------------------------------------------------ edge lists (C05)
def mkedges(I,net): return I.alloc(ObjRec(I.repo.module("pymnet.net").classes["MultilayerEdges"],{"net":net}))
def edges(dmax):
    for d,directed,fic in variants(dmax,(True,False)):
        L=lab(d,directed,fic); T=0 if d<=2 else 1
        def it(s,mode,d=d,directed=directed,fic=fic,L=L):
            def setup(I):
                r,v,F=two(I,d,directed,fic,"view")
                return {"args":[mkedges(I,r)],"sargs":[mkedges(I,v)],"nets":[(r,v)],"result":False,"post":[post_edges(r)]}
            s.case(ME+"__iter__",L,setup)
        reg("edges","edges iter "+L,it,("view",),T)
        def ln(s,mode,d=d,directed=directed,fic=fic,L=L):
            def setup(I):
                r,v,F=two(I,d,directed,fic,"view")
                lt=edge_order(I,r,"anyorder")
                def post(I,res,_):
                    return [("the number of listed edges",tobool(I.eq(res,sum_all(I,r) if directed else sum_lt(I,r,lt))))]
                return {"args":[mkedges(I,r)],"sargs":[mkedges(I,v)],"nets":[(r,v)],"post":[post],"hints":lambda I:[] if directed else [sum_lt(I,r,lt,True),sum_lt(I,r,lt),sum_diag(I,r),sum_all(I,r)]}
            s.case(ME+"__len__",L,setup)
        reg("edges","edges len "+L,ln,("view",),T)
edges(3)

# ------------------------------------------------------------------ equality (C06)
def equality(dmax):
    cfg=list(variants(dmax,(True,False)))
    for c1 in cfg:
        for c2 in cfg:
            T=0 if max(c1[0],c2[0])<=2 else 1
            if c1!=c2 and (max(c1[0],c2[0])>2 or sum(x!=y for x,y in zip(c1,c2))>2): continue
            def f(s,mode,c1=c1,c2=c2):
                def setup(I):
                    out=[]
                    for tag,(d,directed,fic) in (("a",c1),("b",c2)):
                        F={}
                        r,F=mknet(I,d,directed,fic,"view","rep",tag=tag); out.append(r)
                        v,_=mknet(I,d,directed,fic,"view","view",tag=tag,funs=F); out.append(v)
                    return {"args":[out[0],out[2]],"sargs":[out[1],out[3]],"nets":[(out[0],out[1]),(out[2],out[3])]}
                s.case(M+"__eq__",lab(*c1)+" / "+lab(*c2),setup)
            reg("eq","__eq__ %s / %s"%(lab(*c1),lab(*c2)),f,("view",),T)
    for d,directed,fic in cfg:
        def g(s,mode,d=d,directed=directed,fic=fic):
            for what in ("a tuple","None"):
                def setup(I):
                    r,v,F=two(I,d,directed,fic,"view"); x=Tup([1]) if what=="a tuple" else None
                    return {"args":[r,x],"sargs":[v,x],"nets":[(r,v)]}
                s.case(M+"__eq__",lab(d,directed,fic)+" with "+what,setup)
            def setup(I):
                a,av,_=two(I,d,directed,fic,"view"); F={}
                b,F=mknet(I,d,directed,fic,"view","view",tag="b"); bv,_=mknet(I,d,directed,fic,"view","view",tag="b",funs=F)
                return {"args":[a,b],"sargs":[av,bv],"nets":[(a,av),(b,bv)]}
            s.case(M+"__ne__",lab(d,directed,fic),setup)
        reg("eq","__ne__ %s"%lab(d,directed,fic),g,("view",),0 if d<=2 else 1)
equality(3)
