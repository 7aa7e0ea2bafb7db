"""Matrix and graph forms (C13), normalising (C12)."""
from cases_diag import *
def post_under(net):
    def f(I,res,_):
        if not hasview(I,res,"$W"): return [("result is a network",FALSE)]
        n=D(I,net)+1; F=fields(I,res); u,v=fresh_consts(n,"u"),fresh_consts(n,"v"); W=Wf(I,net); Wr=Wf(I,res); S=lambda x: STRF(toV(Tup(x))) ; k,j=fresh_consts(2,"k")
        inv=lambda z:[TA[n][i](UNSTR(z)) for i in range(n)]; img=lambda z:EXISTS(u,[NLmem(I,net,u),S(u)==z])
        out=[("options",z3.BoolVal(D(I,res)==0 and F["directed"]==fields(I,net)["directed"] and I.rec(res).cls.name=="MultilayerNetwork")),("no-edge value",EQ(toV(F["noEdge"]),noE(I,net))),
         ("nodes are the names of the node-layers",FORALL([k],slice_mem(I,res,0,k)==img(k))),
         ("edge weights",FORALL(u+v,IMP(AND(NLmem(I,net,u),NLmem(I,net,v)),Wr([S(u),S(v)])==W(u+v)))),
         ("no other edges",FORALL([k,j],IMP(NOT(AND(img(k),img(j))),Wr([k,j])==noE(I,net)))),
         ("shares no storage with the input",z3.BoolVal(not (reach(I.st,res)&reach(I.st,net))))]
        return out
    return f
def under(dmax):
    for d,directed,fic in variants(dmax,(True,False)):
        L=lab(d,directed,fic)
        def f(s,mode,d=d,directed=directed,fic=fic,L=L):
            def setup(I):
                r,v,F=two(I,d,directed,fic,"view"); return {"args":[r],"sargs":[],"kw":{},"skw":{},"nets":[(r,v)],"result":False,"post":[post_under(v)]}
            s.case(T+"get_underlying_graph",L,setup,spec=lambda I:None)
        reg("under","underlying graph %s"%L,f,("view",))
under(2)
# ------------------------------------------------------------------ normalising (C12)
def smaller(I,mem,x):
    I.ranklemma(lambda v:mem([v]),str(z3.simplify(mem([z3.Const("key",V)]))))
    y=z3.FreshConst(V,"y"); return SUM([y],AND(mem([y]),PYLT(y,x)),z3.RealVal(1))
def numbering(I,net,a,start):
    """every name of the aspect to its position in the order of the names"""
    m=I.rec(slice_ref(I,net,a)).mem; st=real(start)
    return I.alloc(DictRec(lambda k:m([k[0]]),I.memo(lambda k:smaller(I,m,k[0])+st,1),1))
def denumbering(I,net,a,start):
    """positions back to names"""
    m=I.rec(slice_ref(I,net,a)).mem; st=real(start); g=z3.Function(I.name("name"),V,V); x=z3.FreshConst(V,"x"); at=lambda x:V.num(smaller(I,m,x)+st)
    I.fact(FORALL([x],IMP(m([x]),g(at(x))==x)))
    return I.alloc(DictRec(lambda k:AND(m([g(k[0])]),at(g(k[0]))==k[0]),lambda k:g(k[0]),1))
@contract(T+"normalize")
def c_normalize(I,net,nodesToIndices=None,layersToIndices=None,nodeStart=0,layerStart=0):
    if not hasview(I,net,"$W"): return NotImplemented
    I.order(); d=D(I,net); nn=numbering(I,net,0,nodeStart); ln=[numbering(I,net,a+1,layerStart) for a in range(d)]
    r=c_relabel(I,net,nn,I.alloc(ListRec([Part((),TRUE,x) for x in ln])))
    out=[r]
    if nodesToIndices is not None: out.append(nn if nodesToIndices else denumbering(I,net,0,nodeStart))
    if layersToIndices is not None:
        l=ln if layersToIndices else [denumbering(I,net,a+1,layerStart) for a in range(d)]
        out.append(l[0] if d==1 else I.alloc(ListRec([Part((),TRUE,x) for x in l])))
    return out[0] if len(out)==1 else Tup(out)
def norm(dmax):
    for d,directed,fic in variants(dmax,(True,False)):
        L=lab(d,directed,fic)
        for n2i in (None,True,False):
            for l2i in (None,True,False):
                if d==0 and l2i is not None: continue
                def f(s,mode,d=d,directed=directed,fic=fic,L=L,n2i=n2i,l2i=l2i):
                    def setup(I):
                        r,v,F=two(I,d,directed,fic,"view"); a,b=z3.Const("nstart",R),z3.Const("lstart",R); I.fact(z3.IsInt(a)); I.fact(z3.IsInt(b))
                        return {"args":[r,n2i,l2i,a,b],"sargs":[v,n2i,l2i,a,b],"nets":[(r,v)]}
                    s.case(T+"normalize",L+" %s %s"%(n2i,l2i),setup)
                reg("norm","normalize %s %s %s"%(L,n2i,l2i),f,("view",),0 if d<=1 or n2i is None and l2i is None else 1)
norm(2)
# ------------------------------------------------------------------ supra-adjacency matrix (C13)
def post_supra(net,inc):
    def f(I,res,_):
        if not isinstance(res,Tup) or len(res.items)!=2: return [("result is a matrix and a list",FALSE)]
        n=D(I,net)+1; W=Wf(I,net); M,nl=I.rec(res.items[0]),I.rec(res.items[1])
        if not isinstance(M,FunRec) or not M.dims or not isinstance(nl,ListRec): return [("result is a matrix and a list",FALSE)]
        S=[I.rec(slice_ref(I,net,a)).mem for a in range(n)]; u,v=fresh_consts(n,"u"),fresh_consts(n,"v"); ok=lambda x:AND(*[S[a]([y]) for a,y in enumerate(x)])
        out=sameresult(I,res.items[1],Seq([Part(u,ok(u),Tup(u) if n>1 else u[0])]),I.st,I.st)
        if len(nl.parts)!=1 or nl.rank is None: return out+[("positions in the list",FALSE)]
        p=nl.parts[0]; a,ca,va=p.inst(); b,cb,vb=p.inst(); A,Bv=[comps(x,n)[1] if n>1 else [toV(x)] for x in (va,vb)]; num=lambda x:V.num(nl.rank(x))
        w=real(W(A+Bv)); same=eqc(A[1:],Bv[1:]) if n>1 else NOT(eqc(A,Bv))
        if n==1: w=ITE(same,w,z3.RealVal(0))
        elif not inc: w=ITE(same,w,z3.RealVal(0))
        x=M.fn([num(a),num(b)])
        out.append(("entries are the weights",FORALL(list(a)+list(b),IMP(AND(ca,cb),x==V.num(w)))))
        N=SUM(p.vars,p.cond,z3.RealVal(1))
        out.append(("size of the matrix",AND(len(M.dims)==2,*[x==N for x in M.dims])))
        out.append(("positions are inside the matrix",FORALL(list(a),IMP(ca,AND(nl.rank(a)>=0,nl.rank(a)<N,z3.IsInt(nl.rank(a)))))))
        out.append(("positions are different",FORALL(list(a)+list(b),IMP(AND(ca,cb,nl.rank(a)==nl.rank(b)),eqc(a,b)))))
        return out
    return f
def supra(dmax):
    for d,directed,fic in variants(dmax,(True,False)):
        L=lab(d,directed,fic)
        for inc in (None,True,False):
            def f(s,mode,d=d,directed=directed,fic=fic,L=L,inc=inc):
                def setup(I):
                    r,v,F=two(I,d,directed,fic,"view","num"); kw={} if inc is None else {"includeCouplings":inc}
                    return {"args":[r],"sargs":[],"kw":kw,"skw":{},"nets":[(r,v)],"result":False,"post":[post_supra(v,inc is not False)]}
                s.case(M+"get_supra_adjacency_matrix",L+" %s"%inc,setup,spec=lambda I:None)
            reg("supra","supra %s %s"%(L,inc),f,("view",),0 if d<=1 or inc is None else 1)
supra(2)
