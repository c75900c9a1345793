"""sty.py N [opts,...] : styled worlds against plain; N seeds"""
import sys,os,random,shutil,tempfile,collections,re
sys.path.insert(0,'/verif')
from vsim import capsim,capworld,style
from vsim.core import HarnessError
from concurrent.futures import ProcessPoolExecutor
feat=dict(capsim.BASE,**capsim.CONF["C01"]["feat"])
only=sys.argv[2].split(',') if len(sys.argv)>2 else None
os.environ["VERIF_REPO"]=os.environ.get("VERIF_REPO","/repo")
sim=capsim.CapSim("C01","quick"); sim.work=tempfile.mkdtemp(prefix='sty'); sim.prepare()
def one(seed):
    rng=random.Random(seed)
    w=capworld.Gen(rng,feat).world()
    w["style"]=style.draw(rng)
    if only: w["style"]["opts"]=only
    where=os.path.join(sim.work,f"s{seed}"); os.makedirs(where)
    for n,t in capworld.render(w).items(): open(os.path.join(where,n),'w').write(t)
    code,out,err=capsim.run(capsim.capgen_cmd(w),where,env=capsim.tool_env())
    try: bad=sim.same_as_plain(w,where,code,out+err)
    except HarnessError as e: bad=("HARNESS",str(e))
    if bad is None:
        parts=["host_data.F90"]+[s["name"]+".F90" for s in w["schemes"]]
        g,_,e=capsim.run(["gfortran","-c","-fsyntax-only","-std=gnu","-I",sim.shared]+parts,where)
        if g: bad=("HARNESS2",e[-1500:])
    if bad is None: shutil.rmtree(where)
    return seed,bad,w["style"]["opts"],where
if __name__=="__main__":
    n=int(sys.argv[1]); c=collections.Counter(); seen=collections.Counter()
    with ProcessPoolExecutor(6) as ex:
        for seed,bad,opts,where in ex.map(one,range(n)):
            c[bad[0] if bad else 'ok']+=1
            if bad:
                t=bad[1]
                m=re.search(r"(Error: .*|\w+Error: .*|ERROR.*)",t) if 'style-changes' not in bad[0] else None
                key=re.sub(r"[\w/.]*\.F90:\d+|'[^']*'","",m.group(1) if m else t[-200:])[:80]
                seen[key]+=1
                if seen[key]<=2: print('---',seed,bad[0],opts,where,'\n',t[-600:])
    print(c); print(seen)
