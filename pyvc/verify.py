"""Generation of obligations: the real body against its contract, from every state."""
import z3
from terms import *
from engine import *
from netspec import *
from prover import *
def samerec(a,b): return a is b
def paramsame(I,a,b):
    """a container given as a parameter has the same content afterwards"""
    if a is b: return TRUE
    if isinstance(a,SetRec) and isinstance(b,SetRec) and a.shape==b.shape: k=fresh_consts(a.shape); return FORALL(k,a.mem(k)==b.mem(k))
    if isinstance(a,DictRec) and isinstance(b,DictRec) and a.shape==b.shape:
        k=fresh_consts(a.shape); x,y=a.val(k),b.val(k)
        if isz(x) and isz(y): return FORALL(k,AND(a.dom(k)==b.dom(k),IMP(a.dom(k),toV(x)==toV(y))))
    return FALSE
class Session(object):
    def __init__(s,repo,deadline=None): s.repo=repo; s.obls=[]; s.funcs={}; s.errors=[]; s.assumed=set(); s.deadline=deadline; s.paths=0; s.live=0
    def add(s,name,hyps,goal,rep=False,points=()):
        o=Obl(name,hyps,goal,rep); o.points=points; s.obls.append(o)
    def case(s,qual,label,setup,spec=None,rep=False,inv=True,points=None):
        """setup(I) -> dict(args, sargs, nets=[(real,spec)]); runs the real function on args and the contract on sargs"""
        name="%s [%s]"%(qual,label)
        I=Interp(s.repo,CT,deadline=s.deadline); I.under=qual; info=s.repo.func(qual)
        if info is None: s.errors.append((name,"function not found")); return
        try:
            c=setup(I); I.side=[]; I.pairs=list(c.get("nets",()))
            for nm,g,fact in c.get("lemmas",()): I.side.append((nm,[t for _,t in I.st.pc],g)); I.fact(fact)
            pre=dict(I.st.heap)
            outs=I.explore(lambda:I.call(info,list(c["args"]),dict(c.get("kw",{})),None))
            f=spec or CT[qual]
            if not outs: s.errors.append((name,"no path")); return
            new=[]
            for pi,o in enumerate(outs):
                I.st=o.st.copy(); s.paths+=1
                if check([t for _,t in o.st.pc],FALSE,400,full=False)[0]!="proved": s.live+=1
                outs2=I.explore(lambda:f(I,*c["sargs"],**c.get("skw",c.get("kw",{}))))
                for si,q in enumerate(outs2):
                    st=q.st; hyps=[t for _,t in st.pc]; I.st=st; tag="%s path %d.%d"%(name,pi,si)
                    def kind(x): return x.kind if x.kind!="return" else "ok"
                    if kind(o)!=kind(q) or (o.kind=="raise" and not (c.get("anyraise") or o.val==q.val)):
                        new.append((tag+": "+("raises "+o.val if o.kind=="raise" else "returns")+" where the contract "+("raises "+str(q.val) if q.kind=="raise" else "returns"),hyps,FALSE,rep)); continue
                    if o.kind=="raise":
                        if not c.get("raisestate"): new.append((tag+": raises as specified",hyps,TRUE,rep)); continue
                    else:
                        if c.get("result",True):
                          for nm,g in sameresult(I,o.val,q.val,st,st): new.append((tag+": "+nm,hyps,g,rep))
                    for k in c.get("keep",()):
                        if k.oid not in pre or not samerec(o.st.heap.get(k.oid),pre[k.oid]): new.append((tag+": parameter left as it was",hyps,paramsame(I,o.st.heap.get(k.oid),pre.get(k.oid)),rep))
                    for a,b in c.get("nets",()):
                        for nm,g in sameview(I,a,b): new.append((tag+": "+nm,hyps,g,rep))
                        if inv:
                            for nm,g in repinv(I,a): new.append((tag+": invariant: "+nm,hyps,g,True))
                    for fn in c.get("post",()):
                        for nm,g in fn(I,o.val,q.val): new.append((tag+": "+nm,hyps,g,rep))
            for nm,h,g in I.side: new.append(("%s: loop: %s"%(name,nm),h,g,rep))
            pts=c.get("points",())
            hints=c.get("hints",lambda I:())(I)
            for nm,h,g,r in new: s.add(nm,h,g,r,pts); s.obls[-1].hints=hints
            s.funcs.setdefault(qual,[]).append(label)
            for x in I.inlined: s.funcs.setdefault(x,[])
            s.assumed|=I.used
        except Unsupported as e: s.errors.append((name,"unsupported: %s"%e))
        except (PyRaise,Dead,RecursionError,z3.Z3Exception,AttributeError,KeyError,IndexError,TypeError,AssertionError) as e:
            import traceback,os
            s.errors.append((name,"%s: %s"%(type(e).__name__,e)+(" | ".join(traceback.format_exc().split("\n")[-7:]) if os.environ.get("PYVC_DEBUG") else "")))
    def discharge(s,timeout=6000,workers=1):
        for o in s.obls:
            if s.deadline and time.time()>s.deadline: o.status="unknown"; o.model="out of time"; continue
            prove(o,timeout,getattr(o,"points",()),getattr(o,"hints",()))
