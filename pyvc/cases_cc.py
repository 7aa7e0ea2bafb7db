"""Contracts of pymnet.cc (C22): clustering coefficients as sums over ordered pairs of different neighbours."""
from cases_mat import *
CC="pymnet.cc."

def cbrt(x): return POW(x,real(1./3.))   # the number nearest to one third
def weight(I,net): W=Wf(I,net); return lambda x,y:real(W([x,y]))
def linked(I,net): W=Wf(I,net); ne=noE(I,net); return lambda x,y:W([x,y])!=ne
def pairsum(I,net,u,cond,term,more=()):
    """sum over all ordered pairs of different neighbours of u"""
    E=linked(I,net); i,j=fresh_consts(2,"i"); return SUM(list(more)+[i,j],AND(E(u,i),E(u,j),i!=j,cond(i,j)),term(i,j))
def degree(I,net,u): return DG["total"](I,net,Tup([u]))
def maxweight(I,net):
    """the largest weight of an edge"""
    w,E=weight(I,net),linked(I,net); a,b=fresh_consts(2,"e"); m=I.fresh("maxw",R)
    I.fact(FORALL([a,b],IMP(E(a,b),w(a,b)<=m))); I.fact(EXISTS([a,b],[E(a,b),w(a,b)==m])); return m
def ok(I,net): return hasview(I,net,"$W") and D(I,net)==0 and not fields(I,net)["directed"]
def triangles(I,net,u): return pairsum(I,net,u,linked(I,net),lambda i,j:z3.RealVal(1))/2
@contract(CC+"cc_num_den")
def c_cc_num_den(I,net,node):
    if not ok(I,net) or not isV(node): return NotImplemented
    k=degree(I,net,node); return Tup([triangles(I,net,node),k*(k-1)/2])
@contract(CC+"lcc")
def c_lcc(I,net,node,undefReturn=0.0):
    if not ok(I,net) or not isV(node): return NotImplemented
    k=degree(I,net,node)
    if I.branch(k>=2): return triangles(I,net,node)/(k*(k-1)/2)
    return undefReturn
def zh(I,net,u,more=()):
    w,E=weight(I,net),linked(I,net); nij=lambda i,j:w(u,i)*w(u,j)
    return pairsum(I,net,u,E,lambda i,j:nij(i,j)*w(i,j),more)/2,pairsum(I,net,u,lambda i,j:TRUE,nij,more)/2
@contract(CC+"cc_zhang")
def c_cc_zhang(I,net,node,undefReturn=0.0):
    if not ok(I,net) or not isV(node): return NotImplemented
    k=degree(I,net,node)
    if not I.branch(k>=2): return undefReturn
    m=maxweight(I,net); nom,den=zh(I,net,node)
    return I.binop(ast.Div(),I.binop(ast.Div(),nom,den),m)
@contract(CC+"cc_onnela")
def c_cc_onnela(I,net,node,undefReturn=0.0):
    if not ok(I,net) or not isV(node): return NotImplemented
    k=degree(I,net,node)
    if not I.branch(k>=2): return undefReturn
    m=maxweight(I,net); w,E=weight(I,net),linked(I,net); nom=pairsum(I,net,node,E,lambda i,j:cbrt(w(node,i)*w(node,j)*w(i,j)))/2
    return I.binop(ast.Div(),2*nom/(k*(k-1)),m)
@contract(CC+"cc_barrat")
def c_cc_barrat(I,net,node,undefReturn=0.0):
    if not ok(I,net) or not isV(node): return NotImplemented
    k=degree(I,net,node)
    if not I.branch(k>=2): return undefReturn
    w,E=weight(I,net),linked(I,net); nom=pairsum(I,net,node,E,lambda i,j:w(node,i)+w(node,j))/2
    return I.binop(ast.Div(),nom,(k-1)*SG["total"](I,net,Tup([node])))
@contract(CC+"gcc_zhang")
def c_gcc_zhang(I,net):
    if not ok(I,net): return NotImplemented
    u=z3.FreshConst(V,"u"); nom,den=zh(I,net,u,[u])
    if not I.branch(den!=0): return None
    return I.binop(ast.Div(),nom/den,maxweight(I,net))
def mono():
    for q in ("cc_num_den","lcc","cc_zhang","cc_onnela","cc_barrat","gcc_zhang"):
        def f(s,mode,q=q):
            def setup(I):
                r,v,F=two(I,0,False,True,"view","any" if q in ("cc_num_den","lcc") else "num"); u=nlc(I,0,"u")
                if q=="gcc_zhang":
                    E=linked(I,v); i,j,x=fresh_consts(3,"i"); two_=lambda x,i,j:IMP(AND(E(x,i),E(x,j),i!=j),degree(I,v,x)>=2)
                    return {"args":[r],"sargs":[v],"nets":[(r,v)],"lemmas":[("two neighbours are two",two_(x,i,j),FORALL([x,i,j],two_(x,i,j)))],"points":[[i],[j]],"hints":lambda I:[lambda vs,g,t:OR(vs[0]==i,vs[0]==j) if len(vs)==1 else None]}
                x=z3.Const("undef",V); a=[] if q=="cc_num_den" else [x]
                return {"args":[r]+u+a,"sargs":[v]+u+a,"nets":[(r,v)]}
            s.case(CC+q,"",setup)
        reg("cc",q,f,("view",))
mono()
