"""brkall.py NAME[,NAME] N [ver]: how capgen answers to a mistake on N worlds"""
import sys,random,collections
sys.path.insert(0,'/verif')
from vsim import core,capworld,breaks
from vsim.toolsim import *
import subprocess,tempfile
from multiprocessing import Pool
def one(a):
    name,i=a
    rng=random.Random(core.derive(name,i)); w=capworld.Gen(rng,FEAT).world()
    flat=capworld.render(w); names={"host": ["simhost.meta", "host_data.meta"],"schemes": [s["name"] + ".meta" for s in w["schemes"]],"suites": [s["name"] + ".xml" for s in w["suites"]]}
    r=breaks.apply(name,rng,w,flat,names)
    if r is None: return name,i,None,''
    flat,names=r
    with tempfile.TemporaryDirectory() as d:
        for f,t in flat.items(): open(os.path.join(d,f),'w').write(t)
        if 'keep' in sys.argv: 
            shutil.rmtree('/tmp/w/case/brk',ignore_errors=True); shutil.copytree(d,'/tmp/w/case/brk')
        cmd=["/opt/venv/bin/python","/repo/scripts/ccpp_capgen.py","--host-files",",".join(names["host"]),"--scheme-files",",".join(names["schemes"]),"--suites",",".join(names["suites"]),"--output-root","out","--host-name","simhost","--kind-type","kind_phys=REAL64","--kind-type","kind_sp=REAL32"]+(["--debug"] if w["debug"] else [])
        r=subprocess.run(cmd,cwd=d,capture_output=True,text=True)
    return name,i,r.returncode,(r.stderr.strip().split('\n') or [''])[-1][:150]
if __name__=='__main__':
    n=int(sys.argv[2]); nm=sorted(breaks.BREAKS) if sys.argv[1]=='all' else sys.argv[1].split(',')
    if len(sys.argv)>3 and sys.argv[3]!='keep': print(one((nm[0],int(sys.argv[3])))); sys.exit()
    c=collections.Counter(); ex={}
    with Pool(8) as p:
        for name,i,rc,t in p.imap_unordered(one,[(m,i) for m in nm for i in range(n)]):
            c[name,rc]+=1
            if rc==0: ex.setdefault(name,[]).append(i)
            elif rc: ex.setdefault((name,'msg'),t)
    for k,v in sorted(c.items(),key=str): print(k,v)
    print(ex)
