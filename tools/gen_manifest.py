"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json
PROOF=set()   # properties all of whose obligations are discharged and which need no bounded stand-in
NA={"C28":"the graphlet, orbit and orbit-equation code computes complete invariants and automorphism groups through the package PyBliss, which is not installed here, so none of that code can run or be replayed; a contract for it would have to assume exactly the answer it should decide."}
P=[json.loads(l) for l in open("/verif/properties.jsonl")]
checks=[]
for p in P:
    i=p["id"]
    if i in NA: continue
    checks.append({"property":i,"quick_cmd":"python3 check.py %s --tier quick"%i,"thorough_cmd":"python3 check.py %s --tier thorough"%i,"evidence_file":"evidence/%s.json"%i,
      "technique":"contract-based deductive verification (pyvc: proof obligations generated from /repo's current Python source, discharged by z3) with a bounded evaluation of the same contracts on the running code for the functions out of the verifier's reach",
      "level":"proof" if i in PROOF else "exploration",
      "level_note":NOTES.get(i,"see DESIGN.md") if "NOTES" in globals() else "see DESIGN.md for the functions under contract, the obligations and the bounded remainder"})
m={"version":1,"setup_cmd":"python3 -c \"import subprocess,sys; sys.exit(subprocess.call(['python3-vt','-c','import z3']))\"","checks":checks,
   "not_applicable":[{"property":k,"reason":v} for k,v in NA.items()],"notes":"see DESIGN.md; known findings and fixed defects are in KNOWN_FINDINGS"}
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
