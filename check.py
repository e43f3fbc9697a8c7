#!/usr/bin/env python3
"""Decide one property by symbolic execution of the repository's code (see DESIGN.md).
usage: check.py ID [--tier quick|thorough] [--case SUBSTR] [--keep] [-v] [--no-validate]
       check.py --setup            build the engine and the models
       check.py ID --replay FILE   replay a reported counterexample against the natively compiled code"""
import os,sys,json,re,subprocess,shutil,time,hashlib,concurrent.futures as cf,threading,fcntl
V=os.path.dirname(os.path.abspath(__file__)); REPO=os.environ.get('VERIF_REPO','/repo'); SYMX=V+'/symx'; B=V+'/build'
CLANG='/usr/bin/clang-18'; CLANGXX='/usr/bin/clang++-18'; LINK='/usr/bin/llvm-link-18'; NM='/usr/bin/llvm-nm-18'; OPT='/usr/bin/opt-18'
NJ=min(8,os.cpu_count() or 4)
BCFLAGS=['-O1','-fno-vectorize','-fno-slp-vectorize','-fno-unroll-loops','-ftrivial-auto-var-init=pattern','-gline-tables-only','-w','-emit-llvm','-c']
INC=['-I'+V+'/harness','-I'+SYMX+'/models','-I'+SYMX+'/stubinc','-I'+REPO]
def fnv(n):
    h=0x811c9dc5
    for c in n.encode(): h=((h^c)*0x01000193)&0xffffffff
    return h
def sh(cmd,**k): return subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def die(msg): print('ERROR: '+msg); sys.stdout.flush(); os._exit(2)
def digest(paths,extra=''):
    h=hashlib.sha256(extra.encode())
    for p in sorted(paths): h.update(p.encode()); h.update(open(p,'rb').read())
    return h.hexdigest()[:16]
def files(d): return [os.path.join(r,f) for r,_,fs in os.walk(d) for f in fs]
def setup():
    """build the executor and the model library when their sources changed"""
    os.makedirs(B,exist_ok=True)
    with open(B+'/.lock','w') as lk:
        fcntl.flock(lk,fcntl.LOCK_EX)
        d=digest(files(SYMX+'/src')+[SYMX+'/build.sh']); st=B+'/engine.stamp'
        if not(os.path.exists(B+'/symx') and os.path.exists(st) and open(st).read()==d):
            r=sh(['sh',SYMX+'/build.sh',B])
            if r.returncode: die('engine build failed\n'+r.stdout)
            open(st,'w').write(d)
        d=digest(files(SYMX+'/models')+files(SYMX+'/shim')); st=B+'/models.stamp'
        if not(os.path.exists(B+'/models.bc') and os.path.exists(st) and open(st).read()==d):
            outs=[]; jobs=[]
            for f in sorted(os.listdir(SYMX+'/models')):
                s=SYMX+'/models/'+f; o=B+'/m_'+f+'.bc'
                if f.endswith('.c'): jobs.append([CLANG,'-D_GNU_SOURCE','-DENV_NO_SLEEP','-fno-builtin']+BCFLAGS+[s,'-o',o])
                elif f.endswith('.cpp'): jobs.append([CLANGXX,'-std=c++17','-fno-builtin','-I'+SYMX+'/shim']+BCFLAGS+[s,'-o',o])
                else: continue
                if f!='cxxio.cpp': outs.append(o)
            with cf.ThreadPoolExecutor(NJ) as ex:
                for r in ex.map(sh,jobs):
                    if r.returncode: die('model build failed\n'+r.stdout)
            r=sh([LINK]+outs+['-o',B+'/models.bc'])
            if r.returncode: die('model link failed\n'+r.stdout)
            names=set()
            for o in outs+[B+'/m_cxxio.cpp.bc']:
                for l in sh([NM,o]).stdout.splitlines():
                    p=l.split()
                    if len(p)>=2 and p[-2] in 'TtWw': names.add(p[-1])
            open(B+'/models.lst','w').write('\n'.join(sorted(names))+'\n')
            open(st,'w').write(d)
def syms(bc):
    D,U=set(),set()
    for l in sh([NM,bc]).stdout.splitlines():
        p=l.split()
        if len(p)<2: continue
        if p[-2]=='U': U.add(p[-1])
        elif p[-2] in 'TDBRSCV' : D.add(p[-1])
    return D,U
class Spec: pass
def loadspec(pid):
    src=open(V+'/harness/'+pid+'.cpp').read(); m=re.search(r'/\*SPEC\n(.*?)\*/',src,re.S)
    if not m: die('no SPEC in harness '+pid)
    tier=os.environ.get('VERIF_TIER','quick')
    ns={'CASES':[],'TIER':tier,'THOROUGH':tier=='thorough'}
    def case(name,reach=(),tier='quick',time=None,steps=20000000,maxstates=3000000,conc=False,race=True,known=None,harness=None,qt=60000,best=False,**p):
        if tier=='thorough' and ns['TIER']!='thorough': return
        if tier=='quick-only' and ns['TIER']=='thorough': return
        if any(c['name']==name for c in ns['CASES']): raise Exception('duplicate case '+name)
        p['__f']=fnv(p.pop('f',name.split('.')[0]))
        ns['CASES'].append(dict(name=name,reach=list(reach),time=time,steps=steps,maxstates=maxstates,conc=conc,race=race,known=known,p=p,qt=qt,best=best))
    ns['case']=case; exec(m.group(1),ns); return ns
def build_bc(pid,spec,wd,log):
    """compile the repository and the harness to LLVM IR, link what the harness needs"""
    srcs=sorted(f for f in os.listdir(REPO) if f.endswith('.cpp') and not f.endswith('Test.cpp'))
    defs=['-D'+d for d in spec.get('DEFINES',[])]
    common=['-std=c++17','-I'+SYMX+'/shim']+INC+['-include','unistd.h']+defs+BCFLAGS
    opt=spec.get('OPT')
    if opt: common=[('-O'+opt if x=='-O1' else x) for x in common]
    hs=[pid]+spec.get('EXTRA',[])
    jobs=[(s,[CLANGXX]+common+[REPO+'/'+s,'-o',wd+'/r_'+s+'.bc']) for s in srcs]+[(None,[CLANGXX]+common+[V+'/harness/'+h+'.cpp','-o',wd+'/h_'+h+'.bc']) for h in hs]
    failed={}
    with cf.ThreadPoolExecutor(NJ) as ex:
        for (s,_),r in zip(jobs,ex.map(lambda j:sh(j[1]),jobs)):
            if r.returncode:
                if s is None: die('harness does not compile against the current tree:\n'+r.stdout[-3000:])
                failed[s]=r.stdout
    info={s:syms(wd+'/r_'+s+'.bc') for s in srcs if s not in failed}
    mods=[wd+'/h_'+h+'.bc' for h in hs]; D,U=set(),set()
    for m in mods: d,u=syms(m); D|=d; U|=u
    used=[]; skip=set(spec.get('SKIP',[]))
    io=syms(B+'/m_cxxio.cpp.bc')
    while True:
        need=U-D; ch=False
        for s in srcs:
            if s in info and s not in used and s not in skip and (info[s][0]&need):
                used.append(s); D|=info[s][0]; U|=info[s][1]; ch=True; need=U-D
        if not ch: break
    for s in used: mods.append(wd+'/r_'+s+'.bc')
    if io[0]&(U-D): mods.append(B+'/m_cxxio.cpp.bc')
    r=sh([LINK]+mods+['-o',wd+'/l1.bc'])
    if r.returncode: die('link: '+r.stdout[-2000:])
    r=sh([LINK,wd+'/l1.bc','--only-needed',B+'/models.bc','-o',wd+'/final.bc'])
    if r.returncode: die('link: '+r.stdout[-2000:])
    D2,U2=syms(wd+'/final.bc')
    for s,o in failed.items():
        if s in skip: continue
        log.append('note: %s does not compile here: %s'%(s,o.strip().splitlines()[0] if o.strip() else ''))
        if not spec.get('NOSRC') and any(x.startswith('_Z') and s.split('.')[0] in x for x in U2-D2): die('needed source does not compile: '+s+'\n'+o[-2000:])
    if os.environ.get('SYMX_SHOWU'): print('undefined:',' '.join(sorted(U2-D2)))
    return used
def run_symx(pid,c,wd,bc,tier,verbose,tag='',race=False,inst=None,budget=None,nodedup=False):
    out=wd+'/out_%s%s.json'%(c['name'],tag)
    cmd=[B+'/symx',bc,'-o',out,'-repo',REPO,'-time',str(budget or c['time'] or 240),'-steps',str(c['steps']),'-maxstates',str(c['maxstates']),'-qtimeout',str(c['qt']),'-mem','9000','-models',B+'/models.lst','-maxviol','4']
    for k,v in c['p'].items(): cmd+=['-p','%s=%d'%(k,int(v))]
    if race: cmd.append('-race')
    if inst: cmd+=['-instrument',inst]
    if verbose: cmd.append('-v')
    try: r=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=None if verbose else subprocess.PIPE,text=True,timeout=(budget or c['time'] or 240)+60)
    except subprocess.TimeoutExpired: return dict(incomplete=['executor exceeded its time limit'],violations=[],reached={},samples=[],functions=[],paths=0)
    if r.returncode or not os.path.exists(out): return dict(incomplete=['executor failed: rc=%d %s'%(r.returncode,(r.stderr or '')[-400:])],violations=[],reached={},samples=[],functions=[],paths=0)
    return json.load(open(out))
class Native:
    def __init__(s,pid,spec,wd,used): s.pid,s.spec,s.wd,s.used=pid,spec,wd,used; s.exe={}; s.lk=threading.Lock()
    def build(s,bc=None):
        with s.lk:
            key=bc or 'A'
            if key in s.exe: return s.exe[key]
            rt=s.wd+'/rt.o'
            if not os.path.exists(rt):
                r=sh([CLANGXX,'-std=c++17','-O1','-w','-fsanitize=address','-c',V+'/native/runtime.cpp','-o',rt])
                if r.returncode: die('native runtime: '+r.stdout)
            if bc is None:
                fl=['-std=c++17','-O1','-g','-w','-fsanitize=address','-ftrivial-auto-var-init=pattern','-fno-omit-frame-pointer']+INC+['-include','unistd.h']+['-D'+d for d in s.spec.get('DEFINES',[])]
                jobs=[[CLANGXX]+fl+['-c',REPO+'/'+f,'-o',s.wd+'/n_'+f+'.o'] for f in s.used]+[[CLANGXX]+fl+['-c',V+'/harness/'+h+'.cpp','-o',s.wd+'/n_h_'+h+'.o'] for h in [s.pid]+s.spec.get('EXTRA',[])]
                env=[e for e in ('time','log')+tuple(s.spec.get('ENV',())) ]
                jobs+=[[CLANG,'-O1','-g','-w','-D_GNU_SOURCE','-fsanitize=address','-c',SYMX+'/models/env_'+e+'.c','-o',s.wd+'/n_env_'+e+'.o'] for e in env]
                jobs.append([CLANG,'-O1','-g','-w','-c',V+'/native/sql_wrap.c','-o',s.wd+'/n_env_sqlwrap.o'])
                with cf.ThreadPoolExecutor(NJ) as ex:
                    for r in ex.map(sh,jobs):
                        if r.returncode: s.exe[key]=None; s.err=r.stdout; return None
                env=env+['sqlwrap']; sh(['ar','rcs',s.wd+'/libenv.a']+[s.wd+'/n_env_'+e+'.o' for e in env]); exe=s.wd+'/native'
                r=sh([CLANGXX,'-fsanitize=address','-rdynamic']+[j[-1] for j in jobs if 'n_env_' not in j[-1]]+[rt,s.wd+'/libenv.a','-o',exe,'-lpthread','-lsqlite3']+['-Wl,--wrap=sqlite3_'+x for x in ('open','close','prepare_v2','step','finalize')]+s.spec.get('LIBS',[]))
            else:
                t=s.wd+'/nat_'+os.path.basename(bc); exe=t+'.exe'
                r=sh([OPT,'-passes=internalize,globaldce,forceattrs','-internalize-public-api-list=harness_main','-force-attribute=sanitize_address',bc,'-o',t])
                if r.returncode==0: r=sh([CLANGXX,'-O1','-w','-fsanitize=address','-Wno-override-module',t,rt,'-o',exe,'-lpthread','-lm'])
            if r.returncode: s.exe[key]=None; s.err=r.stdout; return None
            s.exe[key]=exe; return exe
    def run(s,inputs,p,tag,bc=None,timeout=20):
        exe=s.build(bc)
        if not exe: return 'NOBUILD',[],getattr(s,'err','')[-1500:]
        f=s.wd+'/in_'+tag; o=s.wd+'/res_'+tag
        with open(f,'w') as h:
            for k,v in p.items(): h.write('P %s 1 %d\n'%(k,int(v)))
            for i in inputs: h.write('I %s %d %s\n'%(i['n'],len(i['v']),' '.join(str(x) for x in i['v'])))
        e=dict(os.environ); e['ASAN_OPTIONS']='detect_leaks=0:abort_on_error=0:exitcode=99:handle_abort=0:detect_odr_violation=0:detect_stack_use_after_return=0:alloc_dealloc_mismatch=1:max_malloc_fill_size=65536:malloc_fill_byte=190:detect_container_overflow=0:allocator_may_return_null=1:strict_string_checks=0:use_sigaltstack=1'
        if os.path.exists(o): os.unlink(o)
        cw=s.wd+'/cwd_'+tag; os.makedirs(cw,exist_ok=True)
        try: r=subprocess.run([exe,f,o,str(timeout)],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=timeout+30,env=e,cwd=cw)
        except subprocess.TimeoutExpired: return 'HANG',[],'timeout'
        finally: shutil.rmtree(cw,ignore_errors=True)
        lines=open(o).read().splitlines() if os.path.exists(o) else []
        res=[l for l in lines if l.startswith('RESULT')]; st=res[0].split(None,2)[1] if res else ('CRASH' if r.returncode else 'OK')
        return st,lines,r.stdout[-6000:].decode('latin1')
def main():
    a=sys.argv[1:]
    if a and a[0]=='--setup': setup(); print('setup done'); return 0
    pid=a[0]; verbose='-v' in a; keep='--keep' in a; sel=a[a.index('--case')+1] if '--case' in a else None
    if '--tier' in a: os.environ['VERIF_TIER']=a[a.index('--tier')+1]
    tier=os.environ.get('VERIF_TIER','quick')
    t0=time.time(); setup(); spec=loadspec(pid); wd=B+'/work/%s-%d'%(pid,os.getpid()); os.makedirs(wd,exist_ok=True); log=[]
    try: return run(a,pid,verbose,sel,tier,t0,spec,wd,log)
    finally:
        if not keep: shutil.rmtree(wd,ignore_errors=True)
def run(a,pid,verbose,sel,tier,t0,spec,wd,log):
    used=build_bc(pid,spec,wd,log); nat=Native(pid,spec,wd,used); natbc=spec.get('NATIVE','A')!='A'
    tb=time.time()-t0
    if '--replay' in a:
        d=json.load(open(a[a.index('--replay')+1])); bc=None
        if d.get('bitcode'):
            bc=wd+'/final.bc'
            if d['bitcode']!='final':
                c=next(c for c in spec['CASES'] if c['name']==d['case']); run_symx(pid,c,wd,bc,tier,False,race=True,inst=wd+'/inst1.bc'); bc=wd+'/inst1.bc'
        st,lines,o=nat.run(d['inputs'],d['params'],'replay',bc,60); print('\n'.join(lines)); print(o[-3000:]); return 0 if st=='OK' else 1
    cases=[c for c in spec['CASES'] if not sel or sel in c['name']]
    total=float(os.environ.get('VERIF_BUDGET','780' if tier=='quick' else '7200'))
    known=[]
    try:
        for l in open(V+'/known-findings.txt'):
            m=re.match(r'known: property=(\S+) key=(\S+) (.*)',l)
            if m and m.group(1)==pid: known.append((m.group(2),m.group(3).strip()))
    except FileNotFoundError: pass
    knownkeys=dict(known); results=[]; viol=[]; incomplete=[]; knownhit={}; lock=threading.Lock()
    nsamp=[0]; natdiff=[]
    def confirm(c,v,bc,i):
        hang=v['kind'] in('hang','stack-overflow')
        st,lines,o=nat.run(v['inputs'],c['p'],'%s_%d'%(c['name'],i),bc,10 if hang else 30)
        ok=st in('FAIL','CRASH','ABORT','EXIT','EXC') or (st=='HANG')
        return ok,st,lines,o
    def handle(c):
        left=total-(time.time()-t0)
        if left<5: return c,dict(incomplete=['check time budget used up'],violations=[],reached={},samples=[],functions=[],paths=0),[]
        bud=min(c['time'] or 240,left); bc=wd+'/final.bc'; rr=[]; natb=bc if natbc else None
        if c['conc']:
            inst=wd+'/inst_%s.bc'%c['name']; r=run_symx(pid,c,wd,bc,tier,verbose,race=c['race'],inst=inst if c['race'] else None,budget=bud); rr.append(r); natb=bc; k=1
            if verbose or os.environ.get('SYMX_RACES'): print('race candidates of %s: %s'%(c['name'],json.dumps(r.get('race_candidates'))))
            while c['race'] and not r['violations'] and not r['incomplete'] and r.get('race_candidates') and k<=3:
                prev=len(r['race_candidates']); left=total-(time.time()-t0); cur=inst
                inst=wd+'/inst%d_%s.bc'%(k+1,c['name'])
                r=run_symx(pid,c,wd,cur,tier,verbose,tag='_i%d'%k,race=True,inst=inst,budget=min(bud,max(5,left))); rr.append(r); natb=cur; k+=1
                if len(r.get('race_candidates',[]))<=prev: break
        else: r=run_symx(pid,c,wd,bc,tier,verbose,budget=bud); rr.append(r)
        confirmed=[]
        for i,v in enumerate(r['violations']):
            ok,st,lines,o=confirm(c,v,natb,i); confirmed.append((v,ok,st,lines,o,natb))
        return c,rr,confirmed
    order=sorted(range(len(cases)),key=lambda i:-(cases[i]['time'] or 0))
    with cf.ThreadPoolExecutor(int(os.environ.get('VERIF_JOBS',spec.get('JOBS',NJ)))) as ex:
        for c,rr,conf in ex.map(handle,[cases[i] for i in order]):
            if isinstance(rr,dict): rr=[rr]
            r=rr[-1]; inc=[x for q in rr for x in q['incomplete']]
            print('case %-34s paths %-7d queries %-7d %6.1fs%s%s'%(c['name'],r['paths'],r.get('queries',0),sum(q.get('wall_s',0) for q in rr),'' if not inc else '  INCOMPLETE '+'; '.join(inc)[:300],'' if not r['violations'] else '  VIOLATED')); sys.stdout.flush()
            miss=[x for x in c['reach'] if not any(q['reached'].get(x) for q in rr)]
            results.append((c,rr,conf))
            if miss and not conf and not inc: incomplete.append('%s: required point(s) never reached: %s'%(c['name'],', '.join(miss)))
            for x in inc:
                if not conf: incomplete.append(c['name']+': '+x)
            for (v,ok,st,lines,o,nb) in conf:
                kid=c['known']
                if ok and kid and kid in knownkeys: knownhit.setdefault(kid,(v,st)); continue
                print('  %s: %s [native replay: %s]'%(v['kind'],v['msg'],st))
                for s in v['stack'][:8]: print('      '+s[:220])
                print('      inputs '+json.dumps([(i['n'],i['v']) for i in v['inputs']])[:1500])
                if ok: viol.append((c,v,st,lines,o,nb))
                else: incomplete.append('%s: counterexample "%s" not reproduced natively (%s)'%(c['name'],v['msg'],st)); print('      '+'\n      '.join(lines[-5:])); print('      '+o[-800:])
    # translation validation: replay sampled paths on the natively compiled code
    nval=0; mism=[]
    if '--no-validate' not in a and not viol:
        jobs=[]; per=2 if len(cases)>12 else 4
        for c,rr,conf in results:
            r=rr[-1]
            if c['known']: continue
            for i,sm in enumerate(r['samples'][:per]): jobs.append((c,sm,i,(wd+'/final.bc' if (natbc or c['conc']) else None) if not c['conc'] or len(rr)==1 else wd+('/inst_%s.bc'%c['name'] if len(rr)==2 else '/inst%d_%s.bc'%(len(rr)-1,c['name']))))
        jobs=jobs[:int(spec.get('VALIDATE',60))] if tier=='quick' else jobs[:300]
        def val(j):
            c,sm,i,bc=j; st,lines,o=nat.run(sm['inputs'],c['p'],'s_%s_%d'%(c['name'],i),bc,60); obs=[l.split()[1:3] for l in lines if l.startswith('OBS ')]
            return c,sm,st,[[x,int(y)] for x,y in obs],o,lines
        if jobs:
            with cf.ThreadPoolExecutor(NJ) as ex:
                for c,sm,st,obs,o,lines in ex.map(val,jobs):
                    if st!='OK' or obs!=sm['obs']: mism.append('%s: native run of a passing path gave %s %s; expected obs %s got %s'%(c['name'],st,' '.join(l for l in lines if l.startswith('RESULT')),sm['obs'][:6],obs[:6])); log.append(o[-1500:])
                    else: nval+=1
        for m in mism[:5]: print('MISMATCH '+m); print('   inputs '+str(next((x[1]['inputs'] for x in [(c,sm) for c,sm,i,b in jobs] if m.startswith(x[0]['name'])),''))[:600])
        if mism:
            for l in log[-2:]: print(l)
            incomplete+=['executor and native code disagree: '+m for m in mism[:3]]
    wall=time.time()-t0; allr=[q for _,rr,_ in results for q in rr]; S=lambda k:sum(q.get(k,0) or 0 for q in allr)
    fns={}
    for q in allr:
        for f in q['functions']:
            k=f['file'].replace(REPO+'/','')+':'+f['name']; x=fns.setdefault(k,[f['instrs'],0]); x[1]=max(x[1],f['hit'])
    conc={}
    for q in allr:
        for k,n in q.get('concretizations',{}).items(): conc[k]=conc.get(k,0)+n
    replays=[]
    os.makedirs(V+'/evidence',exist_ok=True)
    if not sel:
        for f in os.listdir(V+'/evidence'):
            if f.startswith(pid+'.replay'): os.unlink(V+'/evidence/'+f)
    for i,(c,v,st,lines,o,nb) in enumerate(viol):
        f=V+'/evidence/%s.replay%d.json'%(pid,i); json.dump(dict(property=pid,case=c['name'],params=c['p'],kind=v['kind'],msg=v['msg'],stack=v['stack'],inputs=v['inputs'],native=st,native_output=(lines+[o])[-12:],bitcode=None if nb is None else ('final' if nb.endswith('/final.bc') else 'instrumented')),open(f,'w'),indent=1); replays.append(f)
    ev=dict(property=pid,tier=tier,seed=int(os.environ.get('VERIF_SEED','1') or 1),level='model_checking',wall_s=round(wall,2),violations=len(viol),
        assumptions=list(spec.get('ASSUMES',[])),
        coverage=dict(states=S('states'),transitions=S('instructions'),traces_validated_against_impl=nval,
            samples=[dict(case=c['name'],inputs=[(i['n'],i['v'][:16]) for i in sm['inputs']][:12]) for c,rr,_ in results for sm in rr[-1]['samples'][:1]][:8],
            technique='symbolic execution of the LLVM IR of the current tree; SMT (z3) decides every branch, memory access and assertion over all values within the bounds',
            bounds=spec.get('BOUNDS',''),outside=spec.get('OUTSIDE',''),cases=[dict(case=c['name'],params=c['p'],paths=rr[-1]['paths'],queries=sum(q.get('queries',0) for q in rr),sat=sum(q.get('q_sat',0) for q in rr),unsat=sum(q.get('q_unsat',0) for q in rr),solver_s=round(sum(q.get('solver_s',0) for q in rr),2),wall_s=round(sum(q.get('wall_s',0) for q in rr),2),sched_points=sum(q.get('sched_points',0) for q in rr),dedup=sum(q.get('dedup',0) for q in rr),race_candidates=len(rr[-1].get('race_candidates',[]) or []),reached=rr[-1]['reached']) for c,rr,_ in results],
            paths=S('paths'),forks=S('forks'),queries=S('queries'),unsat=S('q_unsat'),sat=S('q_sat'),unknown=S('q_unknown'),solver_s=round(S('solver_s'),2),assertions_checked=S('asserts'),build_s=round(tb,1),
            sources_linked=used,functions_encoded=[dict(function=k,instructions=x[0],executed=x[1]) for k,x in sorted(fns.items())],
            concretizations=conc,stubs=spec.get('STUBS',''),incomplete=incomplete,known_findings=sorted(knownhit)))
    if not sel: json.dump(ev,open(V+'/evidence/%s.json'%pid,'w'),indent=1)
    for k,t in known:
        if k in knownhit: print('KNOWN-FINDING: property=%s %s'%(pid,t))
        elif not sel and any(c['known']==k for c in spec['CASES']): print('note: listed finding %s did not occur'%k)
    print('%s %s: %d cases, %d paths, %d states, %d queries (%d unsat), solver %.1fs, wall %.1fs, %d paths validated natively'%(pid,tier,len(results),S('paths'),S('states'),S('queries'),S('q_unsat'),S('solver_s'),wall,nval))
    if viol:
        for f in replays[:4]: print('VIOLATION property=%s replay=%s'%(pid,f))
        return 1
    if incomplete:
        print('INCONCLUSIVE:'); [print('  '+x[:1000]) for x in incomplete[:12]]; return 2
    return 0
if __name__=='__main__': sys.exit(main())
