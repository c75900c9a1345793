import sys; sys.path[:0]=['/repo/scripts','/repo/scripts/parse_tools','/verif']
import traceback
from vsim import capsim
import json,os
sys.argv=['ccpp_capgen.py']+sys.argv[1:]
import ccpp_capgen, parse_tools
from parse_tools import CCPPError
o=CCPPError.__init__
def init(self,*a,**k):
    traceback.print_stack(limit=14); o(self,*a,**k)
CCPPError.__init__=init
ccpp_capgen._main_func()
