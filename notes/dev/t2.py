import sys,os,json,collections
sys.path.insert(0,'/verif')
from vsim import core
from vsim.registry import make_sim
sim=make_sim(sys.argv[1],"quick")
sim.work=core.make_work("X")
print(sim.prepare())
from multiprocessing import Pool
import time
def one(i):
    t=time.time()
    try:
        sc=sim.generate(core.derive(i)); r=sim.execute(sc)
        return i, r.violations, None, dict(r.stats), time.time()-t
    except Exception as e:
        import traceback; return i,[],traceback.format_exc(),{},0
n=int(sys.argv[2]); off=int(sys.argv[4]) if len(sys.argv)>4 else 0
c=collections.Counter(); ex={}; st=collections.Counter(); T=0
t0=time.time()
with Pool(8) as p:
    for i,v,e,s,dt in p.imap_unordered(one,range(off,off+n)):
        st.update(s); T+=dt
        if e: c['ERR']+=1; ex.setdefault('ERR',(i,e))
        elif v:
            k=v[0][0]; t=v[0][1]
            c[k]+=1; ex.setdefault(k,[]).append((i,t)) if k!='ERR' else 0
        else: c['ok']+=1
print(c); print(time.time()-t0); print(dict(sorted(st.items())))
for k,v in ex.items():
    if k=='ERR': print(v[0],v[1][-1500:]); continue
    print('=====',k)
    for i,t in v[:int(sys.argv[3]) if len(sys.argv)>3 else 2]: print(i,t[:700]+' ... '+t[-700:] if len(t)>1400 else (i,t)); print('--')
import shutil; shutil.rmtree(sim.work)
