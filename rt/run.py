"""Bounded search for a failing input of one property (run under the project's python).

usage: run.py ID --tier quick|thorough --seed N --budget SECONDS --out FILE [--replay FILE]
"""
import sys,os,time,json,argparse,traceback,signal,random,hashlib,multiprocessing,ast
HERE=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,HERE)
REPO=os.environ.get("VERIF_REPO","/repo")

def harvest():
    nums,strs=set(),set()
    for d,_,fs in os.walk(os.path.join(REPO,"pymnet")):
        if "tests" in d: continue
        for f in fs:
            if f.endswith(".py"):
                try: t=ast.parse(open(os.path.join(d,f),encoding="utf-8").read())
                except Exception: continue
                for n in ast.walk(t):
                    if isinstance(n,ast.Constant):
                        if type(n.value) in(int,float) and abs(n.value)<10**6: nums.add(n.value)
                        elif isinstance(n.value,str) and 0<len(n.value)<12 and n.value.isalnum(): strs.add(n.value)
    return sorted(nums),sorted(strs)

class Hang(BaseException): pass
def onalarm(s,f): raise Hang()

def run_case(P,case,timeout):
    """None or (kind,message)"""
    from common import Violation
    import contextlib,io
    h=int(hashlib.sha256(repr(case).encode()).hexdigest()[:8],16)
    random.seed(h)
    try:
        import numpy; numpy.random.seed(h%2**32)
    except ImportError: pass
    signal.signal(signal.SIGALRM,onalarm); signal.setitimer(signal.ITIMER_REAL,timeout)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            P.check(case)
        return None
    except Violation as e: return ("violation",str(e))
    except Hang: return ("hang","no answer after %g s"%timeout)
    except RecursionError: return ("violation","RecursionError")
    except MemoryError: return ("memory","MemoryError")
    except Exception: return ("violation","unexpected exception: "+traceback.format_exc(limit=-6))
    finally: signal.setitimer(signal.ITIMER_REAL,0)

def shrink(P,case,deadline):
    """drop operations while the case still fails"""
    import copy
    changed=True
    while changed and time.time()<deadline:
        changed=False
        for k in ("spec","other"):
            if not isinstance(case,dict) or k not in case or not isinstance(case[k],dict): continue
            ops=case[k]["ops"]; i=len(ops)-1
            while i>=0 and time.time()<deadline:
                c=dict(case); c[k]=dict(case[k]); c[k]["ops"]=ops[:i]+ops[i+1:]
                i-=1
                if not P.valid(c): continue
                r=run_case(P,c,P.timeout)
                if r and r[0]=="violation": case=c; ops=c[k]["ops"]; changed=True
    return case

def worker(pid,k,nw,tier,seed,deadline,q):
    signal.signal(signal.SIGINT,signal.SIG_IGN)
    import allprops
    P=allprops.PROPS[pid]
    n=fixed=nt=rnd=hangs=0; skipped=0; found=None; samples=[]; seen=set(); complete=True
    def one(case):
        nonlocal n,nt,hangs,found,skipped
        r=run_case(P,case,P.timeout); n+=1
        if r is None:
            if P.nontrivial(case):
                h=hash(repr(case))
                if h not in seen: seen.add(h); nt+=1
                if len(samples)<2 and (n<3 or n>50): samples.append(repr(case)[:600])
            return
        if r[0]=="hang":
            if not P.hang_is_violation: hangs+=1; return
            r=run_case(P,case,60)
            if r is None or r[0]=="memory": hangs+=1; return
        if r[0]=="memory": skipped+=1; return
        found=(case,r)
    try:
        for i,case in enumerate(P.fixed(tier)):
            if i%nw!=k: continue
            if time.time()>deadline: complete=False; break
            one(case); fixed+=1
            if found: break
        N=(P.quick*10 if tier=="quick" else P.thorough)
        i=k
        while not found and i<N and time.time()<deadline:
            rng=random.Random("%s-%s-%d"%(pid,seed,i)); i+=nw
            case=P.rand(rng,tier)
            if case is None: break
            one(case); rnd+=1
        if found:
            c,r=found
            if r[0]=="violation":
                try:
                    c2=shrink(P,c,time.time()+10); r2=run_case(P,c2,P.timeout)
                    if r2 and r2[0]=="violation": c,r=c2,r2
                except Exception: pass
            found=(c,r)
        q.put({"k":k,"n":n,"fixed":fixed,"random":rnd,"nontrivial":nt,"hangs":hangs,"skipped":skipped,"complete":complete,"samples":samples,"found":None if not found else {"case":repr(found[0]),"kind":found[1][0],"message":found[1][1]}})
    except BaseException:
        q.put({"k":k,"error":traceback.format_exc(),"n":n,"fixed":fixed,"random":rnd,"nontrivial":nt,"hangs":hangs,"skipped":skipped,"complete":False,"samples":samples,"found":None})

def main():
    ap=argparse.ArgumentParser(); ap.add_argument("id"); ap.add_argument("--tier",default="quick"); ap.add_argument("--seed",default="1")
    ap.add_argument("--budget",type=float,default=40); ap.add_argument("--out"); ap.add_argument("--replay"); ap.add_argument("--workers",type=int,default=8)
    a=ap.parse_args()
    t0=time.time()
    import common
    common.HINTS["nums"],common.HINTS["strs"]=harvest()
    import allprops
    P=allprops.PROPS[a.id]
    if a.replay:
        txt=open(a.replay).read()
        case=json.loads(txt)["case"] if txt.lstrip().startswith("{") and "\"case\":" in txt else txt
        r=run_case(P,eval(case,{"inf":float("inf"),"nan":float("nan")}),60)
        print("reproduced: %s"%r[1] if r else "not reproduced"); sys.exit(1 if r else 0)
    known={k:run_case(P,c,60) for k,c in P.known.items()}
    ctx=multiprocessing.get_context("fork"); q=ctx.Queue(); deadline=t0+a.budget
    ps=[ctx.Process(target=worker,args=(a.id,k,a.workers,a.tier,a.seed,deadline,q)) for k in range(a.workers)]
    for p in ps: p.start()
    res=[]; hard=deadline+180; dead=0
    while len(res)<a.workers and time.time()<hard:
        try: res.append(q.get(timeout=1))
        except Exception:
            if all(not p.is_alive() for p in ps):
                try:
                    while True: res.append(q.get(timeout=0.5))
                except Exception: break
    for p in ps:
        if p.is_alive(): p.kill()
    out={"id":a.id,"evaluations":sum(r["n"] for r in res),"fixed":sum(r["fixed"] for r in res),"random":sum(r["random"] for r in res),"distinct_nontrivial":sum(r["nontrivial"] for r in res),
         "hangs":sum(r["hangs"] for r in res),"skipped":sum(r["skipped"] for r in res),"fixed_complete":all(r["complete"] for r in res) and len(res)==a.workers,"errors":[r["error"] for r in res if r.get("error")],"workers":len(res),
         "samples":[s for r in sorted(res,key=lambda r:r["k"]) for s in r["samples"]][:8],"bound":P.bound,"wall_s":time.time()-t0}
    fs=[r["found"] for r in res if r["found"]]
    fs.sort(key=lambda f:(f["kind"]!="violation",len(f["case"])))
    out["found"]=fs[0] if fs else None
    out["known_failing"]={k:r[1] for k,r in known.items() if r}
    if a.out: json.dump(out,open(a.out,"w"),indent=1)
    else: print(json.dumps(out,indent=1))
    sys.exit(1 if fs else (3 if out["errors"] else 0))
if __name__=="__main__": main()
