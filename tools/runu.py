import sys; sys.path.insert(0,'/verif')
import importlib, time
from cdv.frontend import *; from cdv.stl import *; from cdv import solve
def main():
    u=importlib.import_module('specs.'+sys.argv[1]).unit
    pats=[a for a in sys.argv[2:] if a!='-v']
    t=time.time(); L=Loader(u.cpps,u.filters,u.extra)
    print('load %.1f'%(time.time()-t))
    e = make_engine(L.ix, u)
    import traceback
    for c in u.contracts:
        if c.trusted or (pats and not any(c.fn.endswith(p) for p in pats)): continue
        t=time.time(); n=len(e.obs)
        try:
            cov=e.verify(c); e.obs+=cov
            print('%-40s gen %.1fs %d obs'%(c.fn,time.time()-t,len(e.obs)-n))
        except Unsupported as x:
            print('UNSUPPORTED',c.fn,x)
            if '-v' in sys.argv: traceback.print_exc()
            del e.obs[n:]
        except Exception as x:
            print('ERROR',c.fn,x); traceback.print_exc(); del e.obs[n:]
    if not pats or 'lemma' in pats: e.obs+=unit_lemmas(e,u)
    t=time.time()
    solve.discharge(e,e.obs,scale=float(__import__('os').environ.get('SCALE','0.5')))
    print('solve %.1f'%(time.time()-t))
    solve.group_covers(e.obs)
    bad=[o for o in e.obs if o.status not in('proved','covered')]
    slow=sorted(e.obs,key=lambda o:-o.t)[:8]
    for o in bad: print('BAD',o.fn,'|',o.name,'|',o.kind,o.status,round(o.t,1),o.out[:int(__import__('os').environ.get('OUTN','60'))])
    print('total',len(e.obs),'bad',len(bad),'slow',[(o.fn,o.name[:40],round(o.t,1),o.backend) for o in slow])
    L.cleanup()
    return e
if __name__=='__main__': main()
