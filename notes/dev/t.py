import sys,os,json,collections
sys.path.insert(0,'/verif')
from vsim import core, capsim
feat=json.loads(sys.argv[2]) if len(sys.argv)>2 else None
sim=capsim.CapSim("C00")
if feat is not None: sim.feat=feat
sim.work=core.make_work("C00")
print(sim.prepare())
from multiprocessing import Pool
def one(i):
    try:
        sc=sim.generate(core.derive(i)); r=sim.execute(sc)
        return i, r.violations, None
    except Exception as e:
        import traceback; return i,[],traceback.format_exc()
n=int(sys.argv[1])
c=collections.Counter(); ex={}
with Pool(8) as p:
    for i,v,e in p.imap_unordered(one,range(n)):
        if e: c['ERR']+=1; ex.setdefault('ERR',(i,e))
        elif v:
            k=v[0][0]; t=v[0][1]
            c[k]+=1; ex.setdefault(k,[]).append((i,t)) if k!='ERR' else 0
        else: c['ok']+=1
print(c)
for k,v in ex.items():
    if k=='ERR': print(v[0],v[1][-1500:]); continue
    print('=====',k)
    for i,t in v[:int(sys.argv[3]) if len(sys.argv)>3 else 2]: print(i,t[:700]+' ... '+t[-500:] if len(t)>1200 else (i,t)); print('--')
import shutil; shutil.rmtree(sim.work)
