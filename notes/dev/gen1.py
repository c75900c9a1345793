import sys,os,json
sys.path.insert(0,'/verif')
from vsim import capsim,core
from vsim.registry import make_sim
capsim.CONF["CX"]={"feat":json.loads(sys.argv[2]),"hist":{},"histories":6,"runs":50}
sim=make_sim("CX","quick"); sim.work=core.make_work("X"); sim.prepare()
sc=sim.generate(core.derive(int(sys.argv[1]))); 
os.environ['VSIM_KEEP']='1'
import shutil
r=sim.execute(sc); print(r.violations)
print(sim.work)
