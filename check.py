#!/opt/veriftools/pyvenv/bin/python3
"""check.py <property> [--tier quick|thorough]

Decides one property: compiles /repo's current sources to LLVM IR, generates the verification conditions of
every function under a contract that serves the property, and has an SMT solver discharge them.  A failed
obligation triggers a search for a failing input against the real code (replay harness)."""
import sys,os,time,json,subprocess,hashlib,traceback,signal,shutil,re
ROOT=os.path.dirname(os.path.abspath(__file__)); REPO=os.environ.get('CODD_REPO','/repo')
sys.path[:0]=[ROOT+'/engine',ROOT+'/contracts']
import multiprocessing as mp
T0=time.time()
BUILD=ROOT+'/build'
CLANG=['clang++-18','-std=gnu++23','-I'+REPO+'/src','-DNDEBUG','-D_NDEBUG','-O0','-Xclang','-disable-O0-optnone','-fno-inline','-fno-discard-value-names','-gline-tables-only','-flto','-fwhole-program-vtables','-fvisibility=hidden','-Xclang','-fdump-record-layouts','-S','-emit-llvm']
def sh(cmd,**kw): return subprocess.run(cmd,capture_output=True,text=True,errors='replace',**kw)
def build_engine():
    os.makedirs(BUILD,exist_ok=True); out=BUILD+'/irdump'
    if os.path.exists(out) and os.path.getmtime(out)>=os.path.getmtime(ROOT+'/engine/irdump.cpp'): return
    tmp=out+'.%d'%os.getpid()
    r=sh(['clang++-18','-std=c++17','-O1','-I/usr/lib/llvm-18/include',ROOT+'/engine/irdump.cpp','-o',tmp,'-L/usr/lib/llvm-18/lib','-lLLVM-18'])
    if r.returncode: raise SystemExit('cannot build irdump: '+r.stderr)
    os.replace(tmp,out)
def build_module(work):
    r=sh(CLANG+[ROOT+'/engine/tu.cpp','-o',work+'/tu.ll'])
    if r.returncode: return None,r.stderr
    open(work+'/lay.txt','w').write(r.stdout)
    r=sh([BUILD+'/irdump',work+'/tu.ll'])
    if r.returncode: return None,r.stderr
    open(work+'/tu.json','w').write(r.stdout)
    import vcg
    return vcg.Module(work+'/tu.json',work+'/lay.txt'),''
# ------------------------------------------------------------------ units
G={}
def run_unit(u):
    """one contract on one function (or one lemma); part p of k of its obligations"""
    import vcg,z3
    kind,idx,fn,part,parts=u; tmo=G['timeout']; res=dict(unit=u,obls=[],error=None,undecided=None,inlined=[],used=[],trusted=[],assumed=[],paths=0,covers=0,name=fn)
    t=time.time()
    def left(): return G['deadline']-time.time()
    try:
        if kind=='lemma':
            nm,gen=G['lemmas'][idx]; res['name']='lemma: '+nm; obs=[]
            for n,h,g in gen():
                o=vcg.Obl(nm,n,[x for x in h],g,0,'',kind='lemma'); obs.append(o)
            for o in obs:
                s=z3.Solver(); s.set('timeout',2000)
                for h in o.hyps: s.add(h)
                if s.check()==z3.unsat: res['error']='vacuous lemma hypotheses: '+o.name
                res['covers']+=1
        else:
            C=G['K'][idx]; M=G['M']; dem=vcg.short(M.F[fn]['dem']); res['name']=M.F[fn]['dem']; res['contract']=C.pat.pattern
            ex=vcg.Exec(M,G['lib'],C,fn).run()
            obs=ex.obls; res['paths']=ex.paths
            res['inlined']=sorted(ex.inlined); res['used']=sorted(ex.used); res['trusted']=sorted(ex.trusted); res['assumed']=sorted(ex.assumed)
            if part==0:
                # vacuity: the precondition and at least one return must not be refutable
                okret=False; nret=0
                for nm,pc in ex.covers:
                    if nm=='return':
                        nret+=1
                        if okret: continue
                    s=z3.Solver(); s.set('timeout',3000); s.set('auto_config',False)
                    try: s.set('mbqi',False)
                    except z3.Z3Exception: s.set('smt.mbqi',False)
                    for h in pc: s.add(h)
                    r=s.check(); res['covers']+=1
                    if nm=='precondition' and r==z3.unsat: res['error']='vacuous: precondition contradictory'
                    if nm=='return' and r!=z3.unsat: okret=True
                if nret and not okret: res['error']='vacuous: no return reachable'
                if not nret and not getattr(C,'noreturn',False): res['undecided']='no path returns'
                if not obs: res['error']='no obligation generated'
        for i,o in enumerate(obs):
            if parts>1 and i%parts!=part: continue
            if left()<5: o.status='timeout'; o.reason='check deadline'
            else: vcg.solve(o,int(min(tmo,max(1000,left()*500))))
            if o.status=='timeout' and left()>60 and o.reason!='check deadline': vcg.solve(o,int(min(4*tmo,left()*500)))
            res['obls'].append(dict(name=o.name,kind=o.kind,status=o.status,time=round(o.time,3),backend=o.backend,line=o.line,file=os.path.basename(o.file or ''),reason=o.reason,model=o.model,trail=list(o.trail)[-20:]))
    except vcg.Unsupported as e: res['undecided']=str(e)
    except z3.Z3Exception as e: res['undecided']='solver interface: %s'%e
    except Exception as e: res['undecided']='engine: %s'%''.join(traceback.format_exception(e))[-1500:]
    res['time']=round(time.time()-t,2)
    return res
def init_worker():
    signal.signal(signal.SIGINT,signal.SIG_IGN)
def worker(u):
    return run_unit(u)
# ------------------------------------------------------------------ replay
def build_replay(src,work):
    out=work+'/'+src.replace('.cpp','')
    r=sh(['g++','-std=gnu++23','-O2','-DNDEBUG','-D_NDEBUG','-w','-I'+REPO+'/src',ROOT+'/replay/'+src,'-o',out]+[REPO+'/src/'+f for f in sorted(os.listdir(REPO+'/src')) if f.endswith('.cpp')])
    return (out,'') if r.returncode==0 else (None,r.stderr)
def run_chunk(a):
    exe,args,lo,hi,tmo=a
    cmd=['bash','-c','ulimit -v 6000000; exec timeout -k 2 %d "$@"'%tmo,'x',exe]+args+[str(lo),str(hi)]
    try: r=subprocess.run(cmd,capture_output=True,text=True,errors='replace')
    except Exception as e: return (lo,hi,-99,str(e))
    return (lo,hi,r.returncode,(r.stdout+'\n'+r.stderr)[-6000:])
def replay(exe,conf,n,seed,pool,budget):
    """seeds lo..hi over the pool; a crash, a hang or a FAIL line is a failing input"""
    ch=conf.get('chunk',max(20,n//64)); base=seed*1000003%10**9; t=time.time()
    jobs=[(exe,conf['args'],base+i,base+min(n,i+ch),conf.get('tmo',120)) for i in range(0,n,ch)]
    done=0;fails=[]
    for lo,hi,rc,out in pool.imap_unordered(run_chunk,jobs):
        if rc==0: done+=hi-lo
        else:
            fails.append((lo,hi,rc,out))
            if len(fails)>=3: break
        if time.time()-t>budget: break
    return done,fails
def main():
    import argparse
    ap=argparse.ArgumentParser(); ap.add_argument('prop'); ap.add_argument('--tier',default=os.environ.get('VERIF_TIER','quick')); ap.add_argument('--only'); ap.add_argument('--noreplay',action='store_true'); ap.add_argument('-v',action='store_true'); ap.add_argument('--json'); ap.add_argument('--setup',action='store_true')
    a=ap.parse_args(); prop=a.prop; tier='thorough' if a.tier=='thorough' else 'quick'; seed=int(os.environ.get('VERIF_SEED','1') or 1)
    build_engine()
    if a.setup: sys.exit(0)
    work=BUILD+'/%s.%d'%(prop,os.getpid()); shutil.rmtree(work,ignore_errors=True); os.makedirs(work)
    try: rc=check(prop,tier,seed,work,a)
    finally: shutil.rmtree(work,ignore_errors=True)
    sys.stdout.flush(); sys.exit(rc)
def check(prop,tier,seed,work,a):
    import vcg,registry
    limit=700 if tier=='quick' else 6*3600
    G['deadline']=T0+limit; G['timeout']=20000 if tier=='quick' else 60000
    lib,K,L=registry.load()
    conf=registry.REPLAY.get(prop)
    M,err=build_module(work)
    undecided=[];failed=[];results=[]
    if M is None: undecided.append(('translation unit','does not compile: '+err[-1500:]))
    G.update(M=M,K=K,lib=lib,lemmas=L.get(prop,[]))
    units=[]
    if M:
        G['lib'].M=M
        for i,C in enumerate(K):
            if prop not in C.prop or C.trusted: continue
            if tier=='quick' and getattr(C,'thorough_only',False): continue
            names=[k for k,f in M.F.items() if C.pat.match(vcg.short(f['dem'])) and (not hasattr(C,'only') or re.search(C.only,f['dem']))]
            if not names:
                if not getattr(C,'optional',False): undecided.append((C.pat.pattern,'no function in the current source matches this contract'))
                continue
            for n in names:
                if a.only and not re.search(a.only,M.F[n]['dem']+'|'+vcg.short(M.F[n]['dem'])): continue
                k=C.parts(M.F[n]['dem']) if callable(getattr(C,'parts',None)) else getattr(C,'parts',1)
                for p in range(k): units.append(('fn',i,n,p,k))
    for i in range(len(L.get(prop,[]))):
        if not a.only: units.append(('lemma',i,None,0,1))
    units.sort(key=lambda u:-u[4])
    ctx=mp.get_context('fork')
    rexe=None;rerr=''
    with ctx.Pool(8,init_worker,maxtasksperchild=8) as pool:
        it=pool.imap_unordered(worker,units)
        if conf and not a.noreplay: rexe,rerr=build_replay(conf['src'],work)
        for k in range(len(units)):
            try: r=it.next(timeout=max(5,G['deadline']+40-time.time()))
            except mp.TimeoutError:
                undecided.append(('remaining units','check deadline')); break
            results.append(r)
            if a.v: print('%-8s %6.1fs %4d obl %s %s'%('OK' if not r['undecided'] and not r['error'] and all(o['status']=='proved' for o in r['obls']) else 'BAD',r['time'],len(r['obls']),r['name'][:100],r['undecided'] or r['error'] or [ (o['name'],o['status'],o['reason'],o['line']) for o in r['obls'] if o['status']!='proved'][:4] or ''),flush=True)
        else: pool.close()
    for r in results:
        if r['undecided']: undecided.append((r['name'],r['undecided']))
        if r['error']: failed.append((r['name'],dict(name=r['error'],status='failed',reason='',model=None,line=0,file='',backend='engine',time=0,trail=[])))
        for o in r['obls']:
            if o['status']=='failed': failed.append((r['name'],o))
            elif o['status']!='proved': undecided.append((r['name'],'solver gave up on: '+o['name']+' ('+o['reason']+')'))
    proof_wall=time.time()-T0
    # bounded search on the real code: cross-check, stand-in for undecided functions, and source of failing inputs
    rdone=0;rfails=[]
    if conf and not a.noreplay:
        if rexe is None: undecided.append(('replay harness','does not compile: '+rerr[-800:]))
        else:
            n=conf[tier]
            if (failed or undecided) and tier=='quick': n*=3
            with ctx.Pool(8,init_worker) as pool: rdone,rfails=replay(rexe,conf,n,seed,pool,(150 if tier=='quick' else 3600)); pool.terminate()
    allobs=[o for r in results for o in r['obls']]; disc=sum(o['status']=='proved' for o in allobs)
    # ---------------------------------------------------------------- report
    rdir=ROOT+'/evidence/replay'; os.makedirs(rdir,exist_ok=True); viol=0; lines=[]
    txt=[]
    for nm,o in failed:
        txt.append('FAILED OBLIGATION %s\n  function: %s\n  at: %s:%s  path: %s\n  back end: %s  answer: %s'%(o['name'],nm,o['file'],o['line'],' '.join(o['trail']),o['backend'],o['reason'])+('\n  model: '+o['model'] if o['model'] else ''))
    for nm,w in undecided: txt.append('UNDECIDED %s: %s'%(nm,w))
    known=load_known(prop)
    for lo,hi,rc,out in rfails: txt.append('FAILING INPUT on the real code\n  command: replay/%s %s %d %d (exit %d)\n%s'%(conf['src'],' '.join(conf['args']),lo,hi,rc,out))
    path=rdir+'/%s.txt'%prop
    if rfails: lines.append('VIOLATION property=%s replay=%s'%(prop,path))
    elif failed: lines.append('VIOLATION property=%s replay=%s no-failing-input-found'%(prop,path))
    elif M is None and (rexe is None): lines.append('VIOLATION property=%s replay=%s no-failing-input-found'%(prop,path))
    viol=len(lines)
    if txt: open(path,'w').write('\n\n'.join(txt)+'\n')
    fns=sorted({r['name'] for r in results if r['unit'][0]=='fn'}); bad={r['name'] for r in results if r['undecided'] or r['error'] or any(o['status']!='proved' for o in r['obls'])}
    backends={}
    for o in allobs: b=backends.setdefault(o['backend'],[0,0.0]); b[0]+=1; b[1]=round(b[1]+o['time'],2)
    tr=sorted({t for r in results for t in r['trusted']}); asm=sorted({t for r in results for t in r['assumed']})
    import props
    ev=dict(property=prop,tier=tier,seed=seed,level=props.CLAIM.get(prop,('proof',))[0],coverage=dict(explanation=props.CLAIM.get(prop,('',''))[1],obligations=len(allobs),discharged=disc,checker_cmd='python3 /verif/check.py %s --tier %s'%(prop,tier),
        trusted_base=props.TRUSTED+tr,functions_under_contract=len(fns),functions=fns,functions_fully_discharged=len([f for f in fns if f not in bad]),lemma_units=len([r for r in results if r['unit'][0]=='lemma']),
        inlined_callees=sorted({i for r in results for i in r['inlined']}),contracts_used_at_calls=sorted({i for r in results for i in r['used']}),
        vacuity_checks=sum(r['covers'] for r in results),paths=sum(r['paths'] for r in results if r['unit'][3]==0),back_ends={k:dict(obligations=v[0],solver_s=v[1]) for k,v in backends.items()},
        undecided=['%s: %s'%x for x in undecided],bounded_standins=props.BOUNDED.get(prop,[]),
        replay_cases=rdone,replay_rule=(props.RULE.get(prop,'') if conf else 'none'),evaluations=rdone),
        assumptions=asm+props.ASSUME.get(prop,[]),wall_s=round(time.time()-T0,1),violations=viol)
    open(ROOT+'/evidence/%s.json'%prop,'w').write(json.dumps(ev,indent=1))
    print('%s: %d/%d obligations discharged over %d functions, %d undecided, %d replay cases, %.0fs (proof %.0fs)'%(prop,disc,len(allobs),len(fns),len(undecided),rdone,time.time()-T0,proof_wall))
    for nm,w in undecided: print('UNDECIDED %s: %s'%(nm[:120],w[:300].replace('\n',' ')))
    for nm,o in failed[:20]: print('FAILED %s: %s (%s:%s) %s'%(nm[:100],o['name'],o['file'],o['line'],o['reason']))
    for k in known: print('KNOWN-FINDING: property=%s %s'%(prop,k))
    for l in lines: print(l)
    return 1 if lines else 0
def load_known(prop):
    r=[]
    f=ROOT+'/known-findings.txt'
    if os.path.exists(f):
        for ln in open(f):
            m=re.match(r'finding: property=(\S+) (.*)',ln)
            if m and m.group(1)==prop: r.append(m.group(2))
    return r
if __name__=='__main__': main()
