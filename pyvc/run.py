#!/usr/bin/env python3-vt
"""run.py PROPERTY --tier quick|thorough --out FILE : generates and discharges the obligations of a property.
(For development: run.py group[,group] [--only TEXT] [-v].)"""
import sys,os,json,time,argparse,multiprocessing,signal,ast,copy,zlib
HERE=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,HERE)
from verify import *
import registry
from registry import REG,GROUPS,PROPS
TRUSTED=["pyvc, the generator of proof obligations for Python in /verif/pyvc (symbolic execution, loop summaries, sum lemmas)","z3 5.3 (z3-solver)","CPython's ast module"]
ASSUME=["the number of aspects is fixed in every obligation: 0, 1 and 2 (quick), also 3 (thorough); everything else (nodes, layers, edges, weights, history) is unbounded",
 "names of nodes and layers are hashable, not None and not slices, tuples only where the library allows them; equality of names is the equality of their values",
 "numbers are mathematical reals (no rounding, overflow, nan or inf)","generators are consumed at once and their source is not changed meanwhile","sums over edges are finite","two different arguments are not the same object unless a case says so"]
def runcase(a,repo):
    group,key,tier,modes,fn,limit=a
    best=None
    for mode in modes:
        t=time.time(); s=Session(repo,deadline=t+limit); q0,t0=STATS.q,STATS.t
        fn(s,mode); gen=time.time()-t
        s.discharge()
        un=[o for o in s.obls if o.status=="unknown"]
        if len(un)<=6:
            for o in un:   # once more, with more time
                if time.time()-t<limit: t1=o.t; prove(o,15000,getattr(o,"points",()),getattr(o,"hints",())); o.t+=t1
        r={"key":key,"mode":mode,"obligations":len(s.obls),"discharged":sum(o.status=="proved" for o in s.obls),"errors":s.errors,"paths":s.paths,
           "refuted":[{"name":o.name,"model":o.model} for o in s.obls if o.status=="refuted" and not o.rep],"undecided":[o.name+": "+str(o.model)[:80]+(" (refuted on the representation)" if o.status=="refuted" else "") for o in s.obls if o.status not in ("proved",) and not (o.status=="refuted" and not o.rep)],
           "funcs":sorted(s.funcs),"under":sorted(k for k,v in s.funcs.items() if v),"assumed":sorted(s.assumed),"gen":gen,"t":time.time()-t,"solver":STATS.t-t0,"queries":STATS.q-q0,"live":s.live,
           "slow":sorted([(round(o.t,1),o.name) for o in s.obls],reverse=True)[:2]}
        if not s.errors and r["obligations"] and r["discharged"]==r["obligations"]: return r
        if best is None or (best["errors"] and not r["errors"]): best=r
        if time.time()-t>limit: break
    return best
# ---------------------------------------------------------------- self test: a changed body must not be accepted
SWAP={ast.Eq:ast.NotEq,ast.NotEq:ast.Eq,ast.In:ast.NotIn,ast.NotIn:ast.In,ast.Lt:ast.LtE,ast.LtE:ast.Lt,ast.Gt:ast.GtE,ast.GtE:ast.Gt,ast.Is:ast.IsNot,ast.IsNot:ast.Is}
def sites(f):
    out=[]
    for n in ast.walk(f):
        if isinstance(n,(ast.Assert,ast.Raise)): continue
        if isinstance(n,ast.Compare) and len(n.ops)==1 and type(n.ops[0]) in SWAP: out.append((n,"cmp"))
        elif isinstance(n,ast.Return) and n.value is not None: out.append((n,"ret"))
        elif isinstance(n,ast.Yield): out.append((n,"yield"))
        elif isinstance(n,(ast.Assign,ast.AugAssign,ast.Delete)) or (isinstance(n,ast.Expr) and isinstance(n.value,ast.Call)): out.append((n,"drop"))
        elif isinstance(n,ast.Constant) and type(n.value) is int: out.append((n,"const"))
    return out
class Mut(ast.NodeTransformer):
    def __init__(s,node,how): s.n,s.how=node,how
    def visit(s,n):
        if n is s.n:
            if s.how=="cmp": return ast.copy_location(ast.Compare(n.left,[SWAP[type(n.ops[0])]()],n.comparators),n)
            if s.how=="ret": return ast.copy_location(ast.Return(ast.copy_location(ast.Constant(None),n)),n)
            if s.how=="yield": return ast.copy_location(ast.Constant(None),n)
            if s.how=="drop": return ast.copy_location(ast.Pass(),n)
            if s.how=="const": return ast.copy_location(ast.Constant(n.value+1),n)
        return s.generic_visit(n)
def mutate(repo,qual,k):
    info=repo.func(qual)
    if info is None: return None
    ss=sites(info.node)
    if not ss: return None
    i=k%len(ss); ids=list(ast.walk(info.node)); j=ids.index(ss[i][0])
    node=copy.deepcopy(info.node); n=list(ast.walk(node))[j]
    info.node=ast.fix_missing_locations(Mut(n,ss[i][1]).visit(node)); return "%s line %d (%s)"%(qual,ss[i][0].lineno,ss[i][1])
MUTS=[]
def selftest(i):
    """does a change of one place of the function make some of its cases fail?"""
    qual,k,cases=MUTS[i]; repo=CFG["repo"]; signal.alarm(90)
    what=mutate(repo,qual,k)
    if what is None: return None
    for c,mode in cases:
        try:
            s=Session(repo,deadline=time.time()+12); c[4](s,mode)
            if s.errors: return (what,True)
            for o in s.obls:
                if prove(o,1000,getattr(o,"points",()),getattr(o,"hints",())).status!="proved": return (what,True)
        except BaseException: return (what,True)
    return (what,False)
SEL=[]; CFG={}
def worker(i):
    a=SEL[i]
    signal.alarm(int(a[5]*2+30))
    try:
        r=runcase(a,CFG["repo"])
        return r
    except BaseException as e:
        import traceback
        return {"key":a[1],"errors":[(a[1],"%s: %s %s"%(type(e).__name__,e,traceback.format_exc()[-800:] if os.environ.get("PYVC_DEBUG") else ""))],"obligations":0,"discharged":0,"refuted":[],"undecided":[],"funcs":[],"under":[],"assumed":[],"t":0,"gen":0,"solver":0,"queries":0,"slow":[],"live":0,"paths":0,"mode":""}
def group_of(x): return x.split(":")
def main():
    ap=argparse.ArgumentParser(); ap.add_argument("id"); ap.add_argument("--tier",default="quick"); ap.add_argument("--out"); ap.add_argument("--only"); ap.add_argument("-v",action="store_true"); ap.add_argument("-j",type=int,default=8); ap.add_argument("--limit",type=float,default=0); ap.add_argument("--selftest",type=int,default=0); ap.add_argument("--budget",type=float,default=0)
    a=ap.parse_args(); t0=time.time(); thorough=a.tier=="thorough"
    prop=a.id in PROPS; groups=PROPS[a.id] if prop else a.id.split(",")
    limit=a.limit or (240 if thorough else 60)
    def pick(c):
        if a.id=="all": ok=True
        else: ok=False
        for g in groups:
            n,_,sub=g.partition(":")
            if c[0]==n and (not sub or sub in c[1]): ok=True
        return ok and (c[2]==0 or thorough) and (not a.only or a.only in c[1])
    sel=[c for c in REG if pick(c)]
    if not sel:
        if a.out: json.dump({"obligations":0,"discharged":0},open(a.out,"w"))
        print("no cases"); return
    CFG["repo"]=Repo(); nself=a.selftest or ((6 if thorough else 1) if prop else 0)
    SEL[:]=[c+(limit,) for c in sel]
    budget=a.budget or (1500 if not prop else 640 if thorough else 330); rs=[]; late=[]
    with multiprocessing.get_context("fork").Pool(a.j,maxtasksperchild=1) as pool:
        order=sorted(range(len(SEL)),key=lambda i:-registry.weight(SEL[i]))
        js=[(i,pool.apply_async(worker,(i,))) for i in order]
        for i,j in js:
            try: rs.append(j.get(max(0.1,budget-(time.time()-t0))))
            except multiprocessing.TimeoutError: late.append(SEL[i][1])
        if late: pool.terminate()
    bad=[r for r in rs if r["errors"] or r["discharged"]!=r["obligations"] or not r["obligations"]]
    sf=[]
    if nself and not bad:
        by={}
        for r,i in zip(rs,[i for i,_ in js]):
            if r["t"]<6 and r["obligations"]:
                for q in r["under"]: by.setdefault(q,[]).append((r["t"],i,r["mode"]))
        for q in sorted(by):
            info=CFG["repo"].func(q); n=len(sites(info.node)) if info else 0
            for k in range(min(nself,n)): MUTS.append((q,zlib.crc32(("%s %d"%(q,k)).encode()) if nself<n else k,[(SEL[i][:6],m) for t,i,m in sorted(by[q])]))
        end=min(budget,time.time()-t0+(60 if not thorough else 200))
        with multiprocessing.get_context("fork").Pool(a.j,maxtasksperchild=1) as pool:
            js2=[pool.apply_async(selftest,(i,)) for i in range(len(MUTS))]
            for j in js2:
                try: sf.append(j.get(max(0.1,end-(time.time()-t0))))
                except multiprocessing.TimeoutError: pass
            pool.terminate()
        sf=[x for x in sf if x]
    tot=lambda k:sum(r[k] for r in rs)
    if a.out:
        proven=sorted(set(sum([r["under"] for r in rs if r not in bad],[]))-set(sum([r["under"] for r in bad],[])))
        inl=sorted(set(sum([r["funcs"] for r in rs],[]))-set(proven))
        used=set(sum([r["assumed"] for r in rs],[])); unproved=sorted(u for u in used if u not in proven and u+".__init__" not in proven and u not in registry.SAME)
        und=[u for r in rs for u in r["undecided"]]+["%s: %s"%(n,e[:300]) for r in rs for n,e in r["errors"]]+["%s: out of time"%k for k in late]
        V={"obligations":tot("obligations"),"discharged":tot("discharged"),"undecided":und[:60],"refuted":[x for r in rs for x in r["refuted"]][:40],
           "functions":["%s (under contract)"%f for f in proven]+["%s (body executed inside of its callers)"%f for f in inl],"cases":len(rs),"checker":"cd /verif && python3-vt pyvc/run.py %s --tier %s"%(a.id,a.tier),"trusted":TRUSTED,
           "solver_s":round(tot("solver"),1),"vacuity":{"paths":tot("paths"),"paths_whose_hypotheses_are_not_contradictory":tot("live"),"changed_bodies_tried":len(sf),"changed_bodies_rejected":sum(1 for _,k in sf if k),"changed_bodies_accepted":[w for w,k in sf if not k][:20]},
           "backends":{"z3":tot("discharged")},"assumptions":ASSUME+registry.assumptions(a.id)+["contract of %s used at calls, not proved here"%u for u in unproved]}
        json.dump(V,open(a.out,"w"),indent=1)
    for r in sorted(rs,key=lambda r:-r["t"])[:(1000 if a.v else 6)]: print("%6.1fs gen %.1f %s [%s] %d/%d paths %d %s"%(r["t"],r["gen"],r["key"],r["mode"],r["discharged"],r["obligations"],r["paths"],r["slow"][:1]))
    for r in bad:
        print("BAD",r["key"],r["mode"],"%d/%d"%(r["discharged"],r["obligations"]),r["errors"])
        for x in r["refuted"][:4]: print("   REFUTED",x["name"],(x["model"] or "")[:600])
        for x in r["undecided"][:4]: print("   UNDECIDED",x)
    if sf: print("changed bodies: %d of %d rejected; accepted: %s"%(sum(1 for _,k in sf if k),len(sf),[w for w,k in sf if not k]))
    print("cases %d bad %d late %d obligations %d discharged %d paths %d live %d solver %.1f queries %d wall %.1f"%(len(rs),len(bad),len(late),tot("obligations"),tot("discharged"),tot("paths"),tot("live"),tot("solver"),tot("queries"),time.time()-t0))
if __name__=="__main__": main()
