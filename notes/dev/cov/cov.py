import sys,os,json,glob,collections,shutil
sys.path.insert(0,'/verif')
os.environ["COVOUT"]="/tmp/w/cov/out"
shutil.rmtree("/tmp/w/cov/out",ignore_errors=True); os.makedirs("/tmp/w/cov/out")
from vsim import core,capsim
from vsim.registry import make_sim
from multiprocessing import Pool
orig=capsim.tool_env
def te(h="0"):
    e=orig(h); e["PYTHONPATH"]="/tmp/w/cov:"+e["PYTHONPATH"]; e["COVOUT"]="/tmp/w/cov/out"; return e
capsim.tool_env=te
def one(a):
    p,i=a
    sim=make_sim(p,"quick"); sim.work=WORK
    sc=sim.generate(core.derive(i)); w=sc["world"]
    d=f"{WORK}/{p}{i}"; os.makedirs(d)
    from vsim import capworld
    for n,t in capworld.render(w).items():
        open(os.path.join(d,n),"w").write(t)
    code,o,e=capsim.run(capsim.capgen_cmd(w),d,env=capsim.tool_env()); shutil.rmtree(d); return code
WORK=core.make_work("X")
with Pool(8) as p: r=p.map(one,[(q,i) for q in ("C01","C05","C06","C07","C08","C11","C12","C03","C08","C10") for i in range(25)])
print(collections.Counter(r))
hit=collections.defaultdict(set)
for f in glob.glob("/tmp/w/cov/out/*"):
    for a,b in json.load(open(f)): hit[a].add(b)
json.dump({k:sorted(v) for k,v in hit.items()},open("/tmp/w/cov/hit.json","w"))
import dis
def lines(path):
    code=compile(open(path).read(),path,'exec'); out=set(); st=[code]
    while st:
        c=st.pop(); out|={l for _,_,l in c.co_lines() if l}; st+=[k for k in c.co_consts if hasattr(k,'co_code')]
    return out
for f in sorted(hit):
    al=lines("/repo/scripts/"+f); print(f,len(al&hit[f]),len(al))
shutil.rmtree(WORK)
