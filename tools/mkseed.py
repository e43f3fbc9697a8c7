#!/usr/bin/env python3
"""Planted-bug helper (development only; no check uses it).
usage: mkseed.py SPEC.py [id-substring]
SPEC.py calls seed(id, prop, [(file, old, new)...], needs, breaks, demo, srcs, flags).
For each: builds /verif/seeded/<id>/{patch.diff,demo.cpp,demo.sh,meta.json}, checks in a
scratch copy of /repo that it applies, builds, passes the stable tests, and that the demo
passes without it and fails with it."""
import sys, os, subprocess, json, shutil, textwrap
W='/tmp/sd'; S=os.environ.get('STAGE','/verif/seeded')
def sh(c, cwd=None, t=900):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
only = sys.argv[2] if len(sys.argv)>2 else ''
def fresh():
    if not os.path.isdir(W):
        r=sh('git -C /repo worktree prune; git clone -q /repo %s'%W); assert r.returncode==0, r.stdout
    r=sh('git fetch -q && git reset -q --hard origin/HEAD && git clean -qfd -e _b', W); assert r.returncode==0, r.stdout
    h='/tmp/sd-h'; os.makedirs(h, exist_ok=True)
    if os.path.isdir('/opt/vp/harness'):
        sh('cp -a /opt/vp/harness/. %s/ && sed -i "s#/repo#%s#g" %s/CMakeLists.txt'%(h,W,h))
STABLE=[t if isinstance(t,str) else t['name'] for t in []]
DEMO='''#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds
d=$(cd "$(dirname "$0")" && pwd); r=$PWD
t=$(mktemp -d /tmp/demo.XXXXXX)
trap 'find "$t" -delete' EXIT
g++ -std=c++17 -g -O1 %(flags)s -w -include unistd.h -I"$r" "$d/demo.cpp" %(srcs)s -o "$t/demo" -lsqlite3 -lpthread || exit 3
cd "$t" && timeout 100 ./demo
'''
ok=[];bad=[]
def seed(id, prop, edits, needs, breaks, demo, srcs='', flags='', extra={}):
    if only and only not in id: return
    fresh()
    for f,o,n in edits:
        p=os.path.join(W,f); s=open(p).read()
        if s.count(o)!=1: print(id,'MATCHES',s.count(o),f,repr(o[:60])); bad.append(id); return
        open(p,'w').write(s.replace(o,n))
    diff=subprocess.run('git diff',shell=True,cwd=W,stdout=subprocess.PIPE,text=True).stdout
    D=os.path.join(S,id); os.makedirs(D,exist_ok=True)
    open(D+'/patch.diff','w').write(diff)
    open(D+'/demo.cpp','w').write(textwrap.dedent(demo).lstrip())
    for k,v in extra.items(): open(D+'/'+k,'w').write(v)
    open(D+'/demo.sh','w').write(DEMO%dict(srcs=' '.join('"$r/%s"'%x for x in srcs.split()),flags=flags)); os.chmod(D+'/demo.sh',0o755)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(D+'/meta.json','w'),indent=1)
    r=sh('cmake -S /tmp/sd-h -B %s/_b -G Ninja -DCMAKE_BUILD_TYPE= -DCMAKE_CXX_FLAGS="-w -O3 -g" >/dev/null && ninja -C %s/_b -k 0'%(W,W))
    if r.returncode: print(id,'BUILD FAILED',r.stdout[-800:]); bad.append(id); return
    r=sh("for d in %s/_b/run/*/; do find \"$d\" -mindepth 1 -delete; done; ctest --test-dir %s/_b -j8 --timeout 120"%(W,W))
    fails=[l for l in r.stdout.splitlines() if 'Failed' in l or 'Timeout' in l]
    fails=[l for l in fails if 'ThreadTest' not in l and 'tests failed' not in l]
    if fails: print(id,'TESTS FAIL',fails); bad.append(id); return
    a=sh(D+'/demo.sh',W)
    g=sh('git stash -q',W)
    b=sh(D+'/demo.sh',W)
    sh('git checkout -q -- . ; git stash drop -q',W)
    if a.returncode==0 or b.returncode!=0:
        print(id,'DEMO: patched rc',a.returncode,'clean rc',b.returncode,(b.stdout if b.returncode else a.stdout)[-600:]); bad.append(id); return
    print(id,'ok (patched rc %d: %s)'%(a.returncode,a.stdout.strip()[-100:].replace('\n',' | '))); ok.append(id)
exec(open(sys.argv[1]).read())
print(len(ok),'ok;','bad:',bad)
