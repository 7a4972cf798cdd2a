import sys,time; sys.path[:0]=['/verif/engine','/verif/contracts']
import vcg,importlib
from vcg import *
def run(modname,filt=None,verbose=1,timeout=20000,stop=False):
    M=vcg.Module('/tmp/w/tu.json','/tmp/w/lay.txt'); mod=importlib.import_module(modname)
    import base; lib=base.LIB; lib.contracts=mod.K
    for C in mod.K:
        if C.trusted: continue
        names=[k for k,f in M.F.items() if C.pat.match(short(f['dem']))]
        if filt: names=[n for n in names if re.search(filt,short(M.F[n]['dem'])+'|'+M.F[n]['dem'])]
        elif not names: print('NO TARGET',C.pat.pattern)
        for n in names:
            t=time.time()
            try: ex=Exec(M,lib,C,n).run()
            except Unsupported as e: print('UNSUP',short(M.F[n]['dem']),e); continue
            t1=time.time()-t; bad=[]
            for o in ex.obls:
                solve(o,timeout)
                if o.status!='proved': bad.append(o)
            if verbose>0:
                for o in sorted(ex.obls,key=lambda o:-o.time)[:3]:
                    if o.time>2: print('     slow %.1f %s %s %s %s'%(o.time,o.name,o.backend,o.line,o.trail[-12:]))
            print('OK ' if not bad else 'BAD',short(M.F[n]['dem'])[:70],M.F[n]['dem'][:40],'paths',ex.paths,'obl',len(ex.obls),'bad',len(bad),'exec %.1f solve %.1f'%(t1,time.time()-t-t1))
            for o in bad[:6]: print('    ',o.status,o.reason,o.name,o.file[-12:],o.line,o.trail[-12:]); 
            if verbose>1 and bad: print(bad[0].model)
if __name__=='__main__': run(sys.argv[1],sys.argv[2] if len(sys.argv)>2 else None,int(sys.argv[3]) if len(sys.argv)>3 else 1)
