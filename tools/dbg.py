import sys, importlib, traceback
sys.path.insert(0,'/verif'); sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import os
sys.path.insert(0, os.environ.get('VERIF_REPO','/repo'))
from dv import contract as C
mod = importlib.import_module('contracts.'+sys.argv[1])
ct=[c for c in mod.CONTRACTS if c.name==sys.argv[2]][0]
o=C.ProofOutcome()
try:
    C._prove(ct,o,True,None,4,True)
except Exception: traceback.print_exc()
print(o.status,o.reason)
for f in o.failed: print(f)
for c in o.candidates: print(c, C.run_concrete(ct,c))
