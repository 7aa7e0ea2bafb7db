#!/usr/bin/env python3
"""check.py ID --tier quick|thorough : decides one property on /repo's current tree.

Two parts run at the same time:
  pyvc  generates the proof obligations of the property's contracts from /repo's current source and
        discharges them (unbounded);
  rt    evaluates the same contracts on the real code within a stated bound (stand-in where pyvc has no
        contract or cannot decide; replay and search for a failing input when an obligation is refuted).
exit 0: held; exit 1: a line VIOLATION property=ID replay=...; exit 3: the check itself failed.
"""
import sys,os,json,time,subprocess,argparse,hashlib
HERE=os.path.dirname(os.path.abspath(__file__))
PY="/opt/venv/bin/python"; VT="python3-vt"
REPO=os.environ.get("VERIF_REPO","/repo")
ENV=dict(os.environ,MPLBACKEND="Agg",MPLCONFIGDIR="/opt/venv/mplconfig",PYTHONDONTWRITEBYTECODE="1",PYTHONHASHSEED="0",VERIF_REPO=REPO,OPENBLAS_NUM_THREADS="1",OMP_NUM_THREADS="1")
QUICK_RT,THOROUGH_RT=30,700
def load(p):
    try: return json.load(open(p))
    except Exception: return None
def rt_cmd(pid,tier,seed,budget,out,extra=()):
    return [PY,os.path.join(HERE,"rt","run.py"),pid,"--tier",tier,"--seed",str(seed),"--budget",str(budget),"--out",out]+list(extra)
def findings(pid):
    out={}
    for l in open(os.path.join(HERE,"KNOWN_FINDINGS")):
        if l.startswith("finding: property=%s "%pid):
            key=l.split("key=")[1].split()[0]; out[key]=l.split("|",1)[1].strip()
    return out
def main():
    ap=argparse.ArgumentParser(); ap.add_argument("id"); ap.add_argument("--tier",default=os.environ.get("VERIF_TIER","quick")); ap.add_argument("--no-pyvc",action="store_true"); ap.add_argument("--no-rt",action="store_true")
    a=ap.parse_args(); pid=a.id; t0=time.time(); seed=int(os.environ.get("VERIF_SEED","1") or 1)
    for d in ("evidence","replays"): os.makedirs(os.path.join(HERE,d),exist_ok=True)
    tmp=os.path.join(HERE,"evidence",".%s.%d"%(pid,os.getpid())); rto,vco=tmp+".rt",tmp+".vc"
    manifest=load(os.path.join(HERE,"MANIFEST.json")) or {"checks":[]}
    entry=[c for c in manifest["checks"] if c["property"]==pid]; level=entry[0]["level"] if entry else "exploration"
    budget=QUICK_RT if a.tier=="quick" else THOROUGH_RT
    rtp=vcp=None; rterr=open(tmp+".rterr","w"); vcerr=open(tmp+".vcerr","w")
    if not a.no_pyvc and os.path.exists(os.path.join(HERE,"pyvc","run.py")):
        vcp=subprocess.Popen([VT,os.path.join(HERE,"pyvc","run.py"),pid,"--tier",a.tier,"--out",vco],env=ENV,stdout=vcerr,stderr=vcerr)
    if not a.no_rt: rtp=subprocess.Popen(rt_cmd(pid,a.tier,seed,budget,rto),env=ENV,stdout=rterr,stderr=rterr)
    rcode=vcode=None
    if rtp:
        try: rcode=rtp.wait(budget+240)
        except subprocess.TimeoutExpired: rtp.kill()
    if vcp:
        try: vcode=vcp.wait(max(60,(400 if a.tier=="quick" else 760)-(time.time()-t0)))
        except subprocess.TimeoutExpired: vcp.kill()
    R=load(rto) or {}; V=load(vco) or {}
    errs=open(tmp+".rterr").read()[-2000:]; verrs=open(tmp+".vcerr").read()[-2000:]
    for x in (".rt",".vc",".rterr",".vcerr"):
        try: os.remove(tmp+x)
        except OSError: pass
    replay=os.path.join(HERE,"replays",pid+".json"); viol=None
    def search_more():
        """an obligation is refuted, or was not discharged, but no failing input is known yet: search longer, other seed"""
        out=tmp+".rt2"
        try: subprocess.run(rt_cmd(pid,"thorough",seed+1000,200,out),env=ENV,stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL,timeout=450)
        except subprocess.TimeoutExpired: pass
        r=load(out)
        try: os.remove(out)
        except OSError: pass
        return r or {}
    found=R.get("found"); refuted=V.get("refuted") or []
    more=None
    if not found and (refuted or V.get("undecided")) and not a.no_rt:
        more=search_more(); found=more.get("found")
    if found:
        json.dump({"property":pid,"case":found["case"],"kind":found["kind"],"message":found["message"],"obligations_failed":refuted,
                   "how":"cd /verif && MPLBACKEND=Agg %s rt/run.py %s --replay %s"%(PY,pid,replay)},open(replay,"w"),indent=1)
        viol="VIOLATION property=%s replay=%s"%(pid,replay)
        print("%s: %s"%(found["kind"],found["message"][:1500])); print("input: %s"%found["case"][:1500])
    elif refuted:
        json.dump({"property":pid,"obligations_failed":refuted,"checker":V.get("checker"),"note":"the obligations named here were discharged on the unchanged tree and are refuted by the solver on this one; the bounded search found no concrete failing input"},open(replay,"w"),indent=1)
        for o in refuted[:5]: print("obligation refuted: %s"%o["name"]); print("  "+str(o.get("model"))[:600])
        viol="VIOLATION property=%s replay=%s no-failing-input-found"%(pid,replay)
    known=findings(pid)
    for k,msg in sorted((R.get("known_failing") or {}).items()):
        if k in known: print("KNOWN-FINDING: property=%s %s (%s)"%(pid,known[k],k))
    cov={"evaluations":R.get("evaluations",0),"distinct_nontrivial":R.get("distinct_nontrivial",0),
         "rule":"bounded part (never counted as proved): "+str(R.get("bound",""))+". A case is a literal construction history (or a set of arguments) run on the real code and judged against the executable contract; trivial ones have no operations; equal ones are counted once.",
         "samples":R.get("samples",[])[:6],"fixed_cases":R.get("fixed"),"fixed_cases_complete":R.get("fixed_complete"),"random_cases":R.get("random"),"cases_without_answer":R.get("hangs",0)+R.get("skipped",0)}
    if more: cov["second_search_evaluations"]=more.get("evaluations",0)
    cov.update({"obligations":V.get("obligations",0),"discharged":V.get("discharged",0),"undischarged":V.get("undecided",[]),"refuted":[o["name"] for o in refuted],
         "functions_under_contract":V.get("functions",[]),"checker_cmd":V.get("checker","cd /verif && python3-vt pyvc/run.py %s"%pid),"trusted_base":V.get("trusted",["pyvc (verification condition generator of this repository), z3"]),
         "solver_time_s":V.get("solver_s",0),"vacuity_checks":V.get("vacuity",0),"backends":V.get("backends",{}),"verifier_error":V.get("error") or (verrs if vcp and not V else None)})
    ev={"property":pid,"tier":a.tier,"seed":seed,"level":level,"coverage":cov,"wall_s":time.time()-t0,"violations":1 if viol else 0,
        "assumptions":V.get("assumptions",[])+["the executable contracts in /verif/rt state the property correctly","CPython, networkx, numpy and scipy behave as documented"]}
    json.dump(ev,open(os.path.join(HERE,"evidence",pid+".json"),"w"),indent=1)
    print("%s %s: %d obligations, %d discharged, %d undecided, %d refuted; bounded: %d evaluations (%d distinct); %.1f s"%(pid,a.tier,cov["obligations"],cov["discharged"],len(cov["undischarged"]),len(refuted),cov["evaluations"],cov["distinct_nontrivial"],time.time()-t0))
    if viol: print(viol); sys.exit(1)
    if not a.no_rt and (rcode not in (0,1) or not R or R.get("errors") or not R.get("evaluations")):
        print("bounded part failed:",R.get("errors") or errs); sys.exit(3)
    sys.exit(0)
if __name__=="__main__": main()
