"""Contracts and cases of pymnet.diagnostics (C15)."""
from cases_trans import *
from cases_mplex import *
DI="pymnet.diagnostics."
def neigh(I,net,u,v):
    c=EX(I,net,u,v); return OR(c,EX(I,net,v,u)) if fields(I,net)["directed"] else c
def outdeg(I,net,u):
    return DG["total"](I,net,Tup(u))
def post_degs(net,how):
    def f(I,res,_):
        n=D(I,net)+1; r=I.rec(res); out=[]
        if how=="nodes":
            k=fresh_consts(n,"u"); ok=NLmem(I,net,k)
            if r.empty: return [("result is not a constant",FALSE)]
            r2=shapeto(r,n) if n>1 else r
            out.append(("keys are the node-layers",FORALL(k,r2.dom(k)==ok)))
            out.append(("values are the degrees",FORALL(k,IMP(ok,num(r2.val(k))==outdeg(I,net,k)))))
        else:
            if r.empty: return [("result is not a constant",FALSE)]
            k=z3.FreshConst(V,"k"); u=fresh_consts(n,"u")
            out.append(("keys are the degrees that occur",FORALL([k],r.dom([k])==EXISTS(u,[NLmem(I,net,u),V.num(outdeg(I,net,u))==k]))))
            out.append(("values are the numbers of node-layers of that degree",FORALL([k],IMP(r.dom([k]),num(r.val([k]))==SUM(u,AND(NLmem(I,net,u),V.num(outdeg(I,net,u))==k),z3.RealVal(1))))))
        return out
    return f
def num(x):
    return real(x)
def diag(dmax):
    for d,directed,fic in variants(dmax,(True,False)):
        L=lab(d,directed,fic)
        for how in ("distribution","nodes","other"):
            def f(s,mode,d=d,directed=directed,fic=fic,L=L,how=how):
                def setup(I):
                    r,v,F=two(I,d,directed,fic,"view")
                    def spec(I2,net): 
                        if how=="other": raise PyRaise("Exception")
                    return {"args":[r,how],"sargs":[v],"kw":{},"nets":[(r,v)],"result":False,"post":[post_degs(v,how)],"skw":{}}
                def spec(I,net):
                    if how=="other": raise PyRaise("Exception")
                s.case(DI+"degs",L+" "+how,setup,spec=spec)
            reg("diag","degs %s %s"%(L,how),f,("view",),0 if d<=1 else 1)
        def g(s,mode,d=d,directed=directed,fic=fic,L=L):
            def setup(I):
                r,v,F=two(I,d,directed,fic,"view"); return {"args":[r],"sargs":[v],"kw":{},"skw":{},"nets":[(r,v)]}
            s.case(DI+"density",L,setup,spec=spec_density)
        reg("diag","density %s"%L,g,("view",),0 if d<=1 else 1)
def spec_density(I,net):
    n=D(I,net)+1; u=fresh_consts(n,"u"); N=SUM(u,NLmem(I,net,u),z3.RealVal(1))
    a=sum_all(I,net); E=a if fields(I,net)["directed"] else (a+sum_diag(I,net))/2
    P=N*(N-1)/(1 if fields(I,net)["directed"] else 2)
    return ITE(P==0,z3.RealVal(0),E/P)
diag(2)
# contracts at calls
@contract(DI+"degs")
def c_degs(I,net,degstype="distribution"):
    if not hasview(I,net,"$W") or type(degstype) is not str: return NotImplemented
    if degstype not in ("distribution","nodes"): raise PyRaise("Exception")
    n=D(I,net)+1; u=fresh_consts(n,"u")
    if degstype=="nodes":
        return I.alloc(DictRec(lambda k:NLmem(I,net,list(k)),I.memo(lambda k:outdeg(I,net,list(k)),n),tsh(n) if n>1 else 1))
    return I.alloc(DictRec(lambda k:EXISTS(u,[NLmem(I,net,u),V.num(outdeg(I,net,u))==k[0]]),I.memo(lambda k:SUM(u,AND(NLmem(I,net,u),V.num(outdeg(I,net,u))==k[0]),z3.RealVal(1)),1),1))
@contract(DI+"density")
def c_density(I,net):
    if not hasview(I,net,"$W") or not (isfic(I,net) or hasview(I,net,"$NL")): return NotImplemented
    return spec_density(I,net)
def postmx(m,v,what,how):
    def f(I,res,_):
        d=m.d; l=fresh_consts(d,"l"); r=I.rec(res); out=[]
        if r.empty: return [("result is not a constant",FALSE)]
        r=shapel(r,d); out.append(("keys are the layers",FORALL(l,r.dom(l)==m.L(l)))); x=r.val(l); g=Ref(mxdict(I,v).oid,mxdict(I,v).path+(("k",tuple(l)),))
        if what=="density": return out+[("values are the densities of the layers",FORALL(l,IMP(m.L(l),num(x)==spec_density(I,g))))]
        k=fresh_consts(1,"k"); y=I.rec(c_degs(I,g,how))
        if isinstance(x,Ref): x=I.rec(x)
        return out+[("keys of the values",FORALL(l+k,IMP(m.L(l),x.dom(k)==y.dom(k)))),("values",FORALL(l+k,IMP(AND(m.L(l),y.dom(k)),num(x.val(k))==num(y.val(k)))))]
    return f
def mxdiag(dmax):
    for d,directed,fic,coup in mvariants(dmax):
        if coup!=COUPS[d][0]: continue
        L=mlab(d,directed,fic,coup); a=(d,directed,fic,coup)
        for what,how in (("density",None),("degs","distribution"),("degs","nodes")):
            def f(s,mode,a=a,L=L,what=what,how=how):
                def setup(I):
                    m=MX(I,*a); r,v=m.build(),m.build()
                    return {"args":[r]+([how] if how else []),"sargs":[],"kw":{},"skw":{},"result":False,"post":[postmx(m,v,what,how),lambda I,res,_:unchanged(m,r)]}
                s.case(DI+"multiplex_"+what,L+" %s"%how,setup,spec=lambda I:None)
            reg("diag","multiplex_%s %s %s"%(what,L,how),f,("view",))
mxdiag(2)
