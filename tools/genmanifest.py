#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claimed properties below."""
import json,os
HERE=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GVN="value-graph normalisation (gated SSA value numbering) against reference definitions"
CLAIMED=json.load(open(os.path.join(HERE,"tools","claimed.json")))
NA={
"Z01":"Global optimality of branch and bound quantifies over floating-point scores of all 2^p models; the structural conditions it rests on are decided under B01, C05 and H01, the numeric optimality itself has no sound static argument here.",
"Z02":"Optimality (KKT) of an iterative floating-point solution within a tolerance is a runtime numerical quantity.",
"Z03":"Termination of simulated annealing depends on random draws and on data (a selection with fewer than the required features can repeat forever); no static bound in reach.",
"Z04":"Numerical accuracy of a singular value decomposition is a property of the LAPACK port and of floating-point rounding, not of this source.",
"Z05":"That the chosen threshold minimises a sampled mean norm difference depends on a numerical optimiser's run.",
"Z06":"How many digits a table keeps is a numerical quantity; the documented format is %f and tests pin it.",
}
props=[json.loads(l)["id"] for l in open(os.path.join(HERE,"properties.jsonl"))]
checks=[]
for p in props:
    if p in CLAIMED:
        c=CLAIMED[p]
        checks.append({"property":p,"quick_cmd":"bash check.sh "+p,"thorough_cmd":"bash check.sh -tier thorough "+p,
          "evidence_file":"evidence/%s.json"%p,"technique":c["technique"].replace("GVN",GVN),"level":"other","level_note":c["note"]})
na=[]
for p in props:
    if p not in CLAIMED:
        na.append({"property":p,"reason":NA.get(p,"not claimed yet: its check is being built")})
json.dump({"version":1,"setup_cmd":"bash setup.sh","checks":checks,"not_applicable":na},open(os.path.join(HERE,"MANIFEST.json"),"w"),indent=1)
