import sys, time, os, re
from collections import Counter
from concurrent.futures import ThreadPoolExecutor
import multiprocessing as mp
import build, props
from core import decide, Module
import core
G={}
from check import form
FORM=os.environ.get('FORM'); forms=Counter()
def work(ix):
    cfg,lo,hi=ix
    m,obs=G[cfg]
    return [(o.key,(lambda v:(v.status,v.detail,v.witness,v.secs))(decide(m,o,cfg))) for o in obs[lo:hi]]
def main():
    pids=sys.argv[1].split(',') if sys.argv[1]!='all' else sorted(props.GENS)
    cfgs=sys.argv[2].split(',')
    show=int(sys.argv[3]) if len(sys.argv)>3 else 5
    wd,_=build.workdir()
    for p in pids:
        obs=props.GENS[p]()
        t0=time.time(); tm=[]
        def b(cfg):
            return cfg, build.compile_ir(wd,cfg,p,''.join(dict.fromkeys(o.helpers for o in obs))+''.join(o.rust() for o in obs),[o.fn for o in obs],timing=tm)
        try:
            with ThreadPoolExecutor(4) as ex: res=list(ex.map(b,cfgs))
        except build.BuildError as e:
            print(p,e); print(e.log[-1500:]); continue
        t1=time.time()
        G.clear()
        jobs=[]
        for cfg,t in res:
            G[cfg]=(Module(t),obs)
            jobs+=[(cfg,i,i+10) for i in range(0,len(obs),10)]
        cn=Counter(); slow=[]
        with mp.get_context('fork').Pool(8) as pool:
            n=0
            for (cfg,lo,_),r in zip(jobs,pool.imap(work,jobs)):
                for k,(st,d,w,secs) in r:
                    if FORM and st=="violation": forms[form(k)+" :: "+re.sub(r"\d+","N",d)]+=1; n=99
                    cn[cfg,st]+=1; slow.append((secs,k))
                    if st!='ok' and n<show:
                        n+=1; print('  ',cfg,k,st,d[:700],str(w)[:300])
        for k in sorted(forms): print('   ',forms[k],k)
        print(p,len(obs),dict(cn),'build %.1f analyse %.1f'%(t1-t0,time.time()-t1),max(slow), tm[:2])
main()
