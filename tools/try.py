#!/usr/bin/env python3
"""Development helper: applies edits to a scratch copy of /repo and runs checks
on it. Reads python files that define CASES, a list of (id, props, expect,
edits) with expect "quiet" or "alarm"; edits are (file, old, new)."""
import sys,subprocess,shutil,runpy,os,json
from concurrent.futures import ThreadPoolExecutor
GSA=os.environ.get("GSA","/tmp/gsa")
def one(case):
    cid,props,expect,edits=case
    w="/tmp/try/"+cid
    shutil.rmtree(w,ignore_errors=True)
    shutil.copytree("/repo",w,ignore=shutil.ignore_patterns(".git"))
    v="/tmp/tryv/"+cid
    os.makedirs(v,exist_ok=True); shutil.copy("/verif/known-findings.txt",v)
    out=[]
    for f,old,new in edits:
        p=os.path.join(w,f); t=open(p).read()
        if t.count(old)!=1:
            return cid,["EDIT does not match once: %s %d %r"%(f,t.count(old),old[:50])]
        open(p,"w").write(t.replace(old,new))
    r=subprocess.run(". /verif/env.sh; cd %s && go build ./... "%w,shell=True,executable="/bin/bash",stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    if r.returncode: return cid,["BUILD "+r.stdout[-600:]]
    if os.environ.get("PROPS") and expect=="quiet": props=os.environ["PROPS"].split(",")
    if props=="all": props=list(json.load(open("/verif/tools/claimed.json")))
    if expect=="quiet" and len(props)>4:
        spec={f.split(".")[0].split("_")[0] for f in os.listdir("/verif/gsa/specs")}
        plain=[p for p in props if p not in spec]
        props=[p for p in props if p in spec]
        r=subprocess.run(["/tmp/many",w]+plain,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        if r.returncode: out.append(r.stdout.strip()[:3000])
    for p in props:
        r=subprocess.run([GSA,"-repo",w,"-verif",v,p],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        want=0 if expect=="quiet" else 1
        if r.returncode!=want: out.append("%s: exit %d\n      %s"%(p,r.returncode,"\n      ".join(r.stdout.strip().split("\n")[:6])[:1800]))
        elif expect=="alarm" and os.environ.get("SHOW"): out.append("OK caught %s: %s"%(p,r.stdout.strip()[:300]))
    if not os.environ.get("KEEP"): shutil.rmtree(w,ignore_errors=True); shutil.rmtree(v,ignore_errors=True)
    return cid,out
def main():
    only=set(sys.argv[2:])
    cases=[]
    for f in sys.argv[1].split(","): cases+=runpy.run_path(f)["CASES"]
    if only: cases=[c for c in cases if c[0] in only]
    with ThreadPoolExecutor(4) as ex:
        for (cid,out),c in zip(ex.map(one,cases),cases):
            print(("ok   " if not out else "FAIL " if not out[0].startswith("OK") else "ok   "),cid,c[2])
            for o in out: print("    ",o)
main()
