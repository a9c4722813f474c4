#!/usr/bin/env python3
"""writes DESIGN.md: tools/design_head.md + one section per property"""
import os, re, glob, sys, json
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,os.path.join(V,"tools"))
from design_notes import NOTES
props=[json.loads(l) for l in open(os.path.join(V,"properties.jsonl"))]
out=open(os.path.join(V,"tools/design_head.md")).read().rstrip()+"\n\n## Properties\n"
know=json.load(open(os.path.join(V,"known_findings.json")))
seeds={}
for m in sorted(glob.glob(os.path.join(V,"seeded/*/meta.json"))):
    j=json.load(open(m)); seeds.setdefault(j["property"],[]).append((os.path.basename(os.path.dirname(m)),j))
for p in props:
    i=p["id"]; out+="\n### %s %s\n\n"%(i,p["title"])
    for f in sorted(glob.glob(os.path.join(V,"harness",i+"*.cc"))):
        b=os.path.basename(f); s=open(f).read()
        if not re.match(re.escape(i)+r"[a-z]?\.cc$",b): continue
        names=re.findall(r"^\s*SYM_HARNESS\((\w+)",s,re.M)
        gen=len(re.findall(r"SYM_HARNESS\(",s))
        out+="- `harness/%s`%s\n"%(b," — "+", ".join(names) if names else " — %d harness definitions"%gen)
        for k,l in (("BOUNDS","bounds"),("BOUND-THOROUGH","thorough tier also"),("ASSUME","assumed")):
            for t in re.findall(r"^// %s: (.*)$"%k,s,re.M): out+="  - %s: %s\n"%(l,t)
    if i in NOTES: out+="- %s\n"%NOTES[i]
    fx=[x.split(" ",2)[2] for x in know["fixed"] if x.split()[1]=="property="+i]
    if fx: out+="- repaired in /repo: "+"; ".join(fx)+"\n"
    for n,j in seeds.get(i,[]): out+="- planted bug `%s` (caught by this check): needs %s\n"%(n,j["needs"])
open(os.path.join(V,"DESIGN.md"),"w").write(out)
