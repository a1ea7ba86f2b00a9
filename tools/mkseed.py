#!/usr/bin/env python3
"""Development helper: turns an edit of /repo plus a demonstration into
/verif/seeded/<id>/ after confirming it in a scratch copy. Reads a python file
that defines SEEDS, a list of dicts: id, property, edits [(file, old, new)],
demo (Go test source run through an overlay, or None), pkg, sh (own demo.sh),
files {name: text}, needs, breaks."""
import os,sys,subprocess,json,shutil,tempfile,runpy
VER="/verif"
DEMO='''#!/bin/bash
# runs the test beside this script against /repo (the working directory)
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
%s
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
echo '{"Replace":{"'"$PWD"'/%s/zz_demo_test.go":"'"$here"'/demo_test.go.txt"}}' >"$t/overlay.json"
TMPDIR="$t" timeout 250 go test %s -overlay "$t/overlay.json" -vet=off -count=1 -run 'TestDemo' ./%s
'''
def run(cmd,cwd=None,env=None,timeout=600):
    p=subprocess.run(cmd,shell=True,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors="replace",timeout=timeout,executable="/bin/bash")
    return p.returncode,p.stdout
def failing(out):
    return out
def main():
    only=set(sys.argv[2:])
    seeds=runpy.run_path(sys.argv[1])["SEEDS"]
    base=json.load(open("/opt/vp/BASELINE.json"))
    for s in seeds:
        if only and s["id"] not in only: continue
        d=os.path.join(VER,"seeded",s["id"])
        w="/tmp/seedwork"
        shutil.rmtree(w,ignore_errors=True)
        run("git clone -q /repo "+w)
        ok=True
        for f,old,new in s["edits"]:
            p=os.path.join(w,f); t=open(p).read()
            if t.count(old)!=1:
                print(s["id"],"edit does not match once:",f,t.count(old),repr(old[:60])); ok=False; break
            open(p,"w").write(t.replace(old,new))
        if not ok: continue
        rc,diff=run("git diff",cwd=w)
        rc,out=run(". /opt/vp/env.sh; go build ./... && go vet ./featselect ./cmd 2>&1 | head -5; go build ./... && go test ./... 2>&1 | tail -40",cwd=w)
        stable=json.dumps(base)
        import re
        bad=[x for x in re.findall(r"--- FAIL: (\w+)",out) if x in stable and x!="TestSA"]
        if bad or "build failed" in out or "panic:" in out:
            print(s["id"],"TESTS FAIL\n",out[-3000:]); continue
        os.makedirs(d,exist_ok=True)
        open(os.path.join(d,"patch.diff"),"w").write(diff)
        for n,t in s.get("files",{}).items():
            open(os.path.join(d,n),"w").write(t)
        if s.get("demo"):
            open(os.path.join(d,"demo_test.go.txt"),"w").write(s["demo"])
            pkg=s.get("pkg","featselect")
            race=s.get("race",False)
            sh=DEMO%("export CGO_ENABLED=1" if race else "",pkg,"-race" if race else "",pkg)
        else:
            sh=s["sh"]
        open(os.path.join(d,"demo.sh"),"w").write(sh)
        json.dump({"property":s["property"],"needs":s["needs"],"what_it_breaks":s["breaks"]},open(os.path.join(d,"meta.json"),"w"),indent=1)
        scr="/tmp/seeddemo"; shutil.rmtree(scr,ignore_errors=True); shutil.copytree(d,scr)
        w0="/tmp/seedbase"; shutil.rmtree(w0,ignore_errors=True); run("git clone -q /repo "+w0)
        a,ao=run("bash %s/demo.sh"%scr,cwd=w0)
        b,bo=run("bash %s/demo.sh"%scr,cwd=w)
        for x in (scr,w0): shutil.rmtree(x,ignore_errors=True)
        st="ok" if a==0 and b!=0 else "BAD DEMO"
        if st!="ok" : print(ao[-1500:],"\n-----\n",bo[-1500:])
        # which checks catch it
        rc,o=run("/verif/bin/gsa -repo %s -verif /tmp/seedver %s"%(w,s["property"]))
        v=[l for l in o.splitlines() if "VIOLATED" in l or "UNDECIDED" in l or l.startswith("VIOLATION") or "cannot" in l]
        print(s["id"],st,"base=%d patched=%d"%(a,b),"check rc=%d"%rc, v[0][:300] if v else "")
        shutil.rmtree(w,ignore_errors=True)
main()
