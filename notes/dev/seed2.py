"""seed2.py DIR [-c] [-q]: like seed.py, on an isolated copy"""
import sys, os, shutil, subprocess, json, runpy
d=os.path.abspath(sys.argv[1]); sp=runpy.run_path(d+'/spec.py')
top='/tmp/w/sc/'+sp['ID']; shutil.rmtree(top,ignore_errors=True); os.makedirs(top+'/b'); os.makedirs(top+'/l'); sc=top+'/c'
subprocess.run(['cp','-a','/repo',sc],check=True)
for f,o,n in sp['EDITS']:
    p=sc+'/'+f; s=open(p).read(); assert s.count(o)==1,(f,s.count(o),o); open(p,'w').write(s.replace(o,n))
    bl=set(subprocess.run(['git','-C',sc,'show','4f7e1d6:'+f],capture_output=True,text=True).stdout.split('\n'))
    df=subprocess.run(['git','-C',sc,'diff',f],capture_output=True,text=True).stdout
    for l in df.split('\n'):
        if l.startswith('-') and not l.startswith('---') and l[1:].strip() and l[1:] not in bl: print('NOT BASE:',l)
diff=subprocess.run(['git','-C',sc,'diff'],capture_output=True,text=True).stdout
out='/verif/seeded/'+sp['ID']; shutil.rmtree(out,ignore_errors=True); os.makedirs(out)
open(out+'/patch.diff','w').write(diff)
json.dump({"property":sp['PROP'],"needs":sp['NEEDS'],"what_it_breaks":sp['BREAKS']},open(out+'/meta.json','w'),indent=1)
for f in os.listdir(d):
    if f!='spec.py' and os.path.isfile(d+'/'+f): shutil.copy(d+'/'+f,out)
    if os.path.isdir(d+'/'+f): shutil.copytree(d+'/'+f,out+'/'+f)
if not os.path.exists(out+'/demo.sh'): open(out+'/demo.sh','w').write(sp['DEMO'])
os.chmod(out+'/demo.sh',0o755)
def iso(cmd):
    return subprocess.run(['unshare','-Urm','bash','-c',f'mount --bind {sc} /repo && mount --bind {top}/b /opt/ccpp-build && mount --bind {top}/l /opt/ccpp-test-logs && cd /repo && {cmd}'],capture_output=True,text=True)
r=subprocess.run(['bash',out+'/demo.sh'],cwd='/repo',capture_output=True,text=True); print('clean:',r.returncode,(r.stdout+r.stderr)[-500:])
r=iso(f'bash {out}/demo.sh'); print('patched:',r.returncode,(r.stdout+r.stderr)[-500:])
if '-q' not in sys.argv:
    iso(f'bash /opt/vp/build.sh; bash /opt/vp/test.sh {top}/t.json')
    r=json.load(open(top+'/t.json')); b=json.load(open('/opt/vp/BASELINE.json'))
    print("missing:", [x for x in b['stable'] if x not in set(r['passed'])])
if '-c' in sys.argv:
    env=dict(os.environ,VERIF_REPO=sc,VERIF_TIER="quick",VERIF_SEED="1")
    r=subprocess.run(['/opt/venv/bin/python','check.py',sp['PROP']],cwd='/verif',capture_output=True,text=True,env=env); print('check:',r.returncode,(r.stdout+r.stderr)[-1200:])
shutil.rmtree(top)
print('repo:',subprocess.run(['git','-C','/repo','status','--short'],capture_output=True,text=True).stdout)
