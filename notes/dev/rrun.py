"""rrun.py REPLAY [opidx]: put the project of a T replay into /tmp/w/case/rr and run capgen"""
import json,sys,random,os,shutil,subprocess
sys.path.insert(0,'/verif')
from vsim import core,capworld
from vsim.toolsim import Play
r=json.load(open(sys.argv[1]));sc=r['scenario']
op=[o for o in sc['ops'] if o[0] in('break','edit')][int(sys.argv[2]) if len(sys.argv)>2 else -1]
d='/tmp/w/case/rr'; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
p=Play(sc,d,core.Result())
cur=(op[1],(op[2],op[3]) if op[0]=='break' else None)
files,args,w=p.files(cur)
p.put(p.proj,files)
cmd=["/opt/venv/bin/python","/repo/scripts/ccpp_capgen.py"]+p.command(args,w,{})
print(" ".join(cmd)); 
r=subprocess.run(cmd,cwd=p.proj,capture_output=True,text=True); print(r.returncode,r.stdout,r.stderr)
