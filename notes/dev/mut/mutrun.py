import sys,os,json,shutil,subprocess,time,collections
from multiprocessing import Process,Queue,current_process
MUTS=json.load(open(sys.argv[1])); OUT=sys.argv[2]; NW=int(sys.argv[3])
sys.path.insert(0,'/verif'); sys.dont_write_bytecode=True
PROPS=["C05","C08","C03","C07","C10","C12","C06","C01"]
done=set()
if os.path.exists(OUT):
    for l in open(OUT): done.add(json.loads(l)["i"])
base_stable=json.load(open('/opt/vp/BASELINE.json'))["stable"]
def worlds():
    from vsim import core
    from vsim.registry import make_sim
    r=[]
    for k in range(6):
        for p in PROPS:
            sim=make_sim(p,"quick"); sc=sim.generate(core.derive("mut",p,k)); r.append((p,sc))
    return r
def gen(capsim,capworld,sc,d):
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    for n,t in capworld.render(sc["world"]).items(): open(os.path.join(d,n),"w").write(t)
    code,o,e=capsim.run(capsim.capgen_cmd(sc["world"]),d,60,env=capsim.tool_env())
    res={"code":code}
    if os.path.isdir(d+"/out"):
        for f in sorted(os.listdir(d+"/out")): res[f]=open(d+"/out/"+f).read().replace(d,"@")
    shutil.rmtree(d)
    return res
def worker(wid,q,rq):
    top=f"/tmp/w/mut/w{wid}"; shutil.rmtree(top,ignore_errors=True); os.makedirs(top+"/s")
    shutil.copytree("/tmp/w/repo2",top+"/c",symlinks=True)
    os.environ["VERIF_REPO"]=top+"/c"
    os.environ["VERIF_SCRATCH"]=top+"/s"
    from vsim import core,capsim,capworld
    from vsim.registry import make_sim
    core.REPO=top+"/c"; capsim.REPO=top+"/c"
    ws=worlds()
    sims={}
    for p in PROPS:
        s=make_sim(p,"quick"); s.work=core.make_work("M"+p); s.prepare(); sims[p]=s
    base=[gen(capsim,capworld,sc,top+"/g") for p,sc in ws]
    assert all(b["code"]==0 for b in base), [b["code"] for b in base]
    while True:
        i=q.get()
        if i is None: break
        fn,s,e,new,line,desc=MUTS[i]
        path=top+"/c/scripts/"+fn
        orig=open(path,"rb").read()
        open(path,"wb").write(orig[:s]+new.encode()+orig[e:])
        rec={"i":i,"f":fn,"l":line,"d":desc,"n":new}
        t0=time.time()
        try:
            bad=sum(gen(capsim,capworld,sc,top+"/g")["code"]!=0 for p,sc in ws[:5])
            if bad>=4: rec["r"]="obvious"; raise StopIteration
            os.makedirs(top+"/t",exist_ok=True)
            subprocess.run(["bash","/tmp/w/mut/stable.sh",top+"/c",top+"/t"],timeout=400)
            try: passed=set(json.load(open(top+"/t/t.json"))["passed"])
            except Exception: passed=set()
            miss=[x for x in base_stable if x not in passed]
            shutil.rmtree(top+"/t",ignore_errors=True)
            if miss: rec["r"]="tests"; rec["miss"]=miss[:2]; raise StopIteration
            diff=0; tried=0; rec["r"]="noeffect"
            for (p,sc),b in zip(ws,base):
                g=gen(capsim,capworld,sc,top+"/g")
                if g==b: continue
                diff+=1
                rec["r"]="survived"
                if g["code"]!=0: rec["r"]="killed"; rec["by"]=p+" rejected"; break
                tried+=1
                if tried>6: continue
                r=sims[p].execute(json.loads(json.dumps(sc)))
                v=[x for x in r.violations if "widened" not in x["sig"]] if r.violations and isinstance(r.violations[0],dict) else [x for x in r.violations if "widened" not in str(x)]
                if v: rec["r"]="killed"; rec["by"]=p+" "+str(v[0])[:100]; break
            rec["diff"]=diff
        except StopIteration: pass
        except Exception as ex: rec["r"]="error"; rec["ex"]=repr(ex)
        open(path,"wb").write(orig)
        rec["t"]=round(time.time()-t0,1)
        rq.put(rec)
    for s in sims.values(): shutil.rmtree(s.work,ignore_errors=True)
    shutil.rmtree(top,ignore_errors=True)
    rq.put(None)
q=Queue(); rq=Queue()
todo=[i for i in range(len(MUTS)) if i not in done]
for i in todo: q.put(i)
for _ in range(NW): q.put(None)
ps=[Process(target=worker,args=(k,q,rq)) for k in range(NW)]
[p.start() for p in ps]
left=NW; c=collections.Counter()
with open(OUT,"a") as fh:
    while left:
        r=rq.get()
        if r is None: left-=1; continue
        c[r["r"]]+=1; fh.write(json.dumps(r)+"\n"); fh.flush()
        if sum(c.values())%20==0: print(dict(c),flush=True)
print(dict(c))
