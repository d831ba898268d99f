import sys,time
sys.path.insert(0,'/verif/govc')
from engine import spec, vm, loops, norm, ctx
import importlib
mods=[m for m in sys.argv[1].split(',')]
for m in ['common','pp','bp','ir','range','sum','poe','sparse','verkle','pol','zframe','zhonest','ztree']:
    try: importlib.import_module('specs.'+m)
    except ModuleNotFoundError as e:
        if 'specs' not in str(e): raise
    if m==mods[-1]: break
t=time.time()
v=vm.VM(__import__('os').environ.get('SSA','/tmp/ssa.json'))
spec.install(v)
print('load',round(time.time()-t,1))
verb='-v' in sys.argv
if '-d' in sys.argv: loops.DBG[0]=True
pats=[a for a in sys.argv[2:] if not a.startswith('-')]
for n in spec.SPECS:
    if pats and not any(p in n for p in pats): continue
    r=spec.check(v,n,verb)
    print(('ok  ' if r.ok else 'FAIL'),n,len(r.obls),'%.2fs'%r.time)
    if not r.ok or verb:
        for f in r.fail[:6]: print('      ',f[0],str(f[1])[:1200])
for n,l in spec.LEMMAS.items():
    if pats and not any(p in n for p in pats): continue
    r=spec.check_lemma(v,n)
    print(('ok  ' if r.ok else 'FAIL'),'lemma',n,len(r.obls),'%.2fs'%r.time)
    if not r.ok or verb:
        for f in r.fail[:6]: print('      ',f[0],str(f[1])[:1200])
