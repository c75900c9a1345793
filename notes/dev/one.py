import sys,os,json
sys.path.insert(0,'/verif')
from vsim import core, capsim, capworld
i=int(sys.argv[1]); feat=json.loads(sys.argv[2])
sim=capsim.CapSim("C00"); sim.feat=feat
sim.work='/tmp/w/one'; import shutil; shutil.rmtree(sim.work,ignore_errors=True); os.makedirs(sim.work)
sim.prepare()
sc=sim.generate(core.derive(i)); r=sim.execute(sc)
sig=r.violations[0][0] if r.violations else None
print(r.violations[:1] and [v[:1500] for v in r.violations[0]])
if sig:
    sc,steps=core.minimise(sim,sc,sig,60 if len(sys.argv)<4 else float(sys.argv[3]))
    r=sim.execute(sc); print(steps, [v[:2500] for v in r.violations[0]])
    w=sc['world']; print(json.dumps(w['suites'])); 
    for s in w['schemes']:
        for p,ph in s['phases'].items(): print(s['name'],p,[(a['std'],a['local'],a['intent'],a['type'],a['kind'],a['units'],''.join(a['dims']),'top' if a['top'] else '', 'opt' if a['optional'] else '') for a in ph['args']])
    for v in w['host']: print(v['std'],v['local'],v['type'],v['kind'],v['units'],v['dims'],v['top'],v['active'],v['in_ddt'])
    print(w['debug'])
    for o in sc['histories'][0]: print(capsim.script_line(o))
    d='/tmp/w/case'; shutil.rmtree(d,ignore_errors=True); sim.build(w,d)
