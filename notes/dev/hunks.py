"""hunks.py list | hunks.py commit MSG file:idx,idx ... (cwd repo)"""
import sys,subprocess,re
def hunks():
    d=subprocess.run(['git','diff','-U0'],capture_output=True,text=True).stdout
    out={}
    for f in re.split(r'(?m)^(?=diff --git)',d)[1:]:
        head,*hs=re.split(r'(?m)^(?=@@ )',f)
        name=re.search(r'\+\+\+ b/(.*)',head).group(1)
        out[name]=(head,hs)
    return out
h=hunks()
if sys.argv[1]=='list':
    for n,(head,hs) in h.items():
        for i,x in enumerate(hs): print(n,i,x.split('\n')[1][:90])
else:
    patch=''
    for a in sys.argv[3:]:
        f,_,idx=a.partition(':')
        name=[n for n in h if n.endswith(f)][0]
        ids=[int(i) for i in idx.split(',')] if idx else range(len(h[name][1]))
        patch+=h[name][0]+''.join(h[name][1][i] for i in ids)
    p=subprocess.run(['git','apply','--cached','--unidiff-zero','-'],input=patch,text=True)
    assert p.returncode==0
    subprocess.run(['git','commit','-q','-m',sys.argv[2]],check=True)
