import sys; sys.path.insert(0,'/verif')
from vsim import capsim
def cv(want,got,scale,orig=capsim.compare_values):
    r=orig(want,got,scale)
    for x,y in zip(want,got):
        if x is None or isinstance(x,int): continue
        q=abs(x-y)/(capsim.TOL*max(scale,abs(x),1e-300))
        if q>0.02: open('/tmp/w/ratio.log','a').write(f"{q:.3f} {x} {y} {scale}\n")
    return r
capsim.compare_values=cv
exec(open('/tmp/w/t2.py').read())
