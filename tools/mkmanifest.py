import json,sys
sys.path.insert(0,"/verif")
import props
P=[json.loads(l) for l in open("/verif/properties.jsonl")]
checks=[]
for p in P:
    i=p["id"]
    lv=props.LEVEL[i]
    c={"property":i,"quick_cmd":"python3 check.py %s"%i,"thorough_cmd":"python3 check.py %s --thorough"%i,"evidence_file":"evidence/%s.json"%i,
       "technique":"contracts on the functions extracted from /repo/src, discharged by Verus/Z3 on every run; failed obligations replayed by running the library" ,
       "level":lv,"level_note":props.NOTE[i]}
    if lv=="proof": c["theorems"]=props.LEMMAS.get(i,[])
    checks.append(c)
m={"version":1,"setup_cmd":"bash setup.sh","checks":checks,"not_applicable":[],
"notes":"No hooks in /repo: the functions are extracted mechanically from /repo/src on every run. DESIGN.md says which parts are discharged and which are bounded."}
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
