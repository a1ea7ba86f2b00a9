#!/usr/bin/env python3
"""Rewrites the list of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json,glob,os
p="/verif/DESIGN.md"; s=open(p).read()
h=s.index("## Planted bugs"); i=s.find("\n* `",h)
head=s[:i+1]
out=[]
for m in sorted(glob.glob("/verif/seeded/*/meta.json")):
    d=json.load(open(m)); n=os.path.basename(os.path.dirname(m))
    w=d["what_it_breaks"].rstrip("."); k=d["needs"].rstrip(".")
    out.append("* `%s` (%s): %s. Needs %s. Caught by %s."%(n,d["property"],w,k,d.get("caught_by",d["property"])))
open(p,"w").write(head+"\n".join(out)+"\n")
