"""seed.py DIR : DIR/spec.py defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], and DIR has demo.sh + files"""
import sys, os, shutil, subprocess, json, runpy
d=os.path.abspath(sys.argv[1]); sp=runpy.run_path(d+'/spec.py')
sc='/tmp/w/sc'; shutil.rmtree(sc,ignore_errors=True); subprocess.run(['cp','-a','/repo',sc],check=True)
for f,o,n in sp['EDITS']:
    p=sc+'/'+f; s=open(p).read(); assert s.count(o)==1,(f,s.count(o),o); open(p,'w').write(s.replace(o,n))
diff=subprocess.run(['git','-C',sc,'diff'],capture_output=True,text=True).stdout
# every removed line must be of the base commit
base_ok=True
for f,o,n in sp['EDITS']:
    bl=set(subprocess.run(['git','-C',sc,'show','4f7e1d6:'+f],capture_output=True,text=True).stdout.split('\n'))
for l in diff.split('\n'):
    if l.startswith('-') and not l.startswith('---') and l[1:].strip() and l[1:] not in bl: print('NOT BASE:',l)
out='/verif/seeded/'+sp['ID']; shutil.rmtree(out,ignore_errors=True); os.makedirs(out)
open(out+'/patch.diff','w').write(diff)
json.dump({"property":sp['PROP'],"needs":sp['NEEDS'],"what_it_breaks":sp['BREAKS']},open(out+'/meta.json','w'),indent=1)
for f in os.listdir(d):
    if f!='spec.py' and os.path.isfile(d+'/'+f): shutil.copy(d+'/'+f,out)
if not os.path.exists(out+'/demo.sh'): open(out+'/demo.sh','w').write(sp['DEMO'])
os.chmod(out+'/demo.sh',0o755)
env={k:v for k,v in os.environ.items()}
def demo(cwd):
    r=subprocess.run(['bash',out+'/demo.sh'],cwd=cwd,capture_output=True,text=True,env=env); return r.returncode,(r.stdout+r.stderr)[-700:]
print('clean:',demo('/repo'))
# tests with patch: in /repo itself (test.sh uses /repo)
subprocess.run(['git','-C','/repo','apply',out+'/patch.diff'],check=True)
try:
    if '-q' not in sys.argv:
        subprocess.run('bash /opt/vp/build.sh >/dev/null 2>&1; bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1',shell=True)
        print('tests:',subprocess.run(['python3','/tmp/w/cmp.py'],capture_output=True,text=True).stdout.strip())
    print('patched:',demo('/repo'))
    if '-c' in sys.argv:
        prop=sp['PROP']; r=subprocess.run(['/opt/venv/bin/python','check.py',prop,'--tier','quick'],cwd='/verif',capture_output=True,text=True); print(r.returncode,(r.stdout+r.stderr)[-1500:])
finally:
    subprocess.run(['git','-C','/repo','checkout','--','.'])
print(subprocess.run(['git','-C','/repo','status','--short'],capture_output=True,text=True).stdout)
