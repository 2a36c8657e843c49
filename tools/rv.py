import sys,time,importlib,os
sys.path[:0]=['/verif']; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
from pyver import verify
pid=sys.argv[1]
cm=importlib.import_module('contracts.'+pid)
t0=time.time()
r=verify.run_contracts(cm,pid,'quick',os.environ.get('VERIF_REPO','/repo'),time.time()+float(os.environ.get('DL','460')),1)
c=r.coverage()
print(time.time()-t0,c['obligations'],c['discharged'],c['verification_conditions_by_back_end'])
for t in c['targets']: print(t)
for o in r.refuted()+r.undecided(): print(o.status,o.name,o.vcs,o.note[:300]); print("   cases",str(o.cases[:1])[:600])
if '-a' in sys.argv:
    for a in r.assumptions()+r.trusted(): print(' A',a)
    print(c['functions_under_contract'])
