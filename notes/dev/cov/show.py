import json,sys,re
hit={k:set(v) for k,v in json.load(open("/tmp/w/cov/hit.json")).items()}
def lines(path):
    code=compile(open(path).read(),path,'exec'); out=set(); st=[code]
    while st:
        c=st.pop(); out|={l for _,_,l in c.co_lines() if l}; st+=[k for k in c.co_consts if hasattr(k,'co_code')]
    return out
import warnings; warnings.simplefilter('ignore')
for f in sys.argv[1:]:
    src=open("/repo/scripts/"+f).read().split("\n")
    un=sorted(lines("/repo/scripts/"+f)-hit[f]); print("=====",f,len(un))
    fn=None
    for l in un:
        # enclosing def
        for k in range(l,0,-1):
            m=re.match(r"( *)def (\w+)",src[k-1])
            if m and len(m[1])<len(src[l-1])-len(src[l-1].lstrip()): break
        else: m=None
        nm=m and m[2]
        if nm!=fn: fn=nm; print("  --",fn)
        print(f"   {l}: {src[l-1].strip()[:110]}")
