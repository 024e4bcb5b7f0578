#!/bin/bash
# run.sh harness.cpp time "entry [symx args]"...: explores entries with 8 jobs, prints results in brief
cd "$(dirname "$0")/.." && exec python3 - "$@" <<'P'
import sys,subprocess,os,json,collections
sys.path.insert(0,'.'); sys.dont_write_bytecode=True
from vlib import build
h,t=sys.argv[1:3]
try:
    build.build_engine(); bc=build.module(h)
except build.BuildError as e:
    print(str(e)[-1500:]); sys.exit(1)
for e in sys.argv[3:]:
    e=e.split()
    out="/tmp/run.%s.log"%e[0]
    a=[]
    for x in e[1:]:
        a += ["--param",x] if "=" in x and not x.startswith("-") else [x]
    p=subprocess.run([build.SYMX,bc,e[0],"--out",out,"--time",t,"--jobs","8","--repo",build.REPO+"/src"]+a,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    print("===",*e, p.returncode or "",p.stdout[-500:])
    seen=set(); reach=set()
    for l in open(out):
        d=json.loads(l)
        if d['t'] in('violation','error'):
            k=(d.get('kind'),d.get('msg'))
            if k not in seen:
                seen.add(k)
                if len(seen)<=5: print("  ",l[:900].rstrip())
        if d['t']=='summary': print("  ",{k:d[k] for k in ('wall','stop','paths','violations','errors','cut','maxInsts','inconclusive','asserts','assertsSolver','queries','qunknown','qms')})
        if d['t']=='reach': reach.update(d['l'])
    print("   reach",sorted(reach))
P
