#!/usr/bin/env python3
"""DESIGN.md from design_head.md, properties.jsonl, the SPEC blocks of the harnesses, the oracles below and design_tail.md"""
import json,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
O=json.load(open(V+'/tools/oracles.json'))
out=open(V+'/tools/design_head.md').read()
for l in open(V+'/properties.jsonl'):
    p=json.loads(l); i=p['id']; t=open(V+'/harness/%s.cpp'%i).read(); m=re.search(r'/\*SPEC\n(.*?)\*/',t,re.S).group(1)
    def g(k):
        x=re.search(r"^%s=(.*)$"%k,m,re.M)
        return eval(x.group(1)) if x else None
    out+='### %s %s\n\n%s\n\n'%(i,p['title'],p['statement'])
    out+='- **Decided by**: %s\n'%O[i]
    out+='- **Bounds**: %s.\n- **Outside**: %s.\n'%(g('BOUNDS'),g('OUTSIDE'))
    if g('ASSUMES'): out+='- **Assumes**: %s.\n'%'; '.join(g('ASSUMES'))
    out+='\n'
out+=open(V+'/tools/design_tail.md').read()
open(V+'/DESIGN.md','w').write(out)
fx=''.join('- **%s** `%s`: %s\n'%m.groups() for m in (re.match(r'fixed: property=(\S+) (\S+) (.*)',l) for l in open(V+'/known-findings.txt')) if m)
sd='| planted bug | property | needs | caught |\n|---|---|---|---|\n'
C=json.load(open(V+'/tools/caught.json'))
for d in sorted(os.listdir(V+'/seeded')):
    m=json.load(open(V+'/seeded/%s/meta.json'%d)); sd+='| %s | %s | %s | %s |\n'%(d,m['property'],m['needs'].replace('|','/'),C.get(d,'not run'))
out=open(V+'/DESIGN.md').read().replace('@@FIXED@@',fx).replace('@@SEEDS@@',sd); open(V+'/DESIGN.md','w').write(out)
