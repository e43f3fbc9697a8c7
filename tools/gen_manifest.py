#!/usr/bin/env python3
# MANIFEST.json from properties.jsonl and the harnesses present; what has no harness is not claimed
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA=json.load(open(V+'/tools/not_applicable.json')) if os.path.exists(V+'/tools/not_applicable.json') else {}
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
checks=[];na=[]
for p in props:
    i=p['id']
    h=V+'/harness/%s.cpp'%i
    if os.path.exists(h) and i not in NA:
        t=open(h).read(); spec={}
        import re
        m=re.search(r"^BOUNDS\s*=\s*(['\"])(.*?)\1\s*$",t,re.M); b=m.group(2) if m else ''
        conc='conc=True' in t
        checks.append(dict(property=i,quick_cmd='python3 check.py %s'%i,thorough_cmd='python3 check.py %s --tier thorough'%i,
          technique='symbolic execution of the LLVM bitcode compiled from /repo on every run'+(', with every interleaving of the threads within the switch bound explored,' if conc else '')+'; each assertion decided by Z3 (bit-vectors, floating point, linear integers) for every value within the bounds; counterexamples replayed natively on the real sources',
          level='model_checking',level_note='Bounded: '+b))
    else: na.append(dict(property=i,reason=NA.get(i,'no check yet: the harness is still being built')))
m=dict(version=1,setup_cmd='python3 check.py --setup',checks=checks,not_applicable=na,notes='No hooks: the checks compile /repo unchanged. Genuine defects found are repaired in fix: commits or listed in known-findings.txt. See DESIGN.md.')
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1); open(V+'/MANIFEST.json','a').write('\n')
print(len(checks),'checks',len(na),'not applicable')
