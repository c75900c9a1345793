import sys,json
sys.path.insert(0,'/verif')
from vsim import capsim
capsim.CONF["CX"]={"feat":json.loads(sys.argv.pop(1)),"hist":json.loads(sys.argv.pop(1)),"histories":6,"runs":50}
sys.argv.insert(1,"CX")
exec(open('/tmp/w/t2.py').read())
