import sys, importlib, time
sys.path.insert(0,'/verif'); sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import os
sys.path.insert(0, os.environ.get('VERIF_REPO','/repo'))
from dv import contract as C
import contracts.stubs; contracts.stubs.install()
os.environ['DV_CHILD']='1'
from check import short_inputs
mod = importlib.import_module('contracts.'+sys.argv[1])
pat = sys.argv[2] if len(sys.argv)>2 else ''
for ct in mod.CONTRACTS:
    if pat and not ct.name.startswith(pat): continue
    t=time.time(); bad=None; k=s=0
    for vals in C.sample_inputs(ct, 1, ct.samples):
        m=C.run_concrete(ct, vals)
        if m=='skip': s+=1; continue
        k+=1
        if m: bad=(m,vals); break
    print(ct.name, 'concrete ok=%d skip=%d %.1fs'%(k,s,time.time()-t), 'BAD %s %s'%(bad[0],short_inputs(bad[1])) if bad else '', flush=True)
    if ct.mode!='proof': continue
    o=C.prove(ct, verbose='-v' in sys.argv)
    print('   ', o.status, o.reason, 'obl',len(o.obligs),'paths',o.paths, o.solver)
    for f in o.failed: print('      FAIL',f)
    for c in o.candidates[:3]:
        print('      cand', short_inputs(c), C.run_concrete(ct,c))
