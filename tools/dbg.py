import sys
sys.path[:0]=['/verif/engine','/verif/specs']
sys.setrecursionlimit(100000)
import importlib,runner,vlib
from vlib import *
from compare import *
m=importlib.import_module(sys.argv[1]); 
e=[e for e in m.entries('quick') if e.id==sys.argv[2]][0]
with Work() as d:
    bc,err=compile_unit(d,'u',gen_unit([e]),CONFIGS[e.cfg])
    if not bc: print(err[:3000]); sys.exit()
    js=dump_unit(d,'u',bc,gen_spec([e],'deep' in sys.argv))
    info,mod=runner.load_unit(js,[e])
lay,rng,fns=info[e.id]
print(lay,rng)
for k,f in fns.items():
    if len(sys.argv)>3 and k!=sys.argv[3]: continue
    A=runner.analyse(f,mod,e,lay,rng)
    print('==',k,A.notes,A.unknowns[:4])
    for b,n in A.final.items():
        if b.args[0]!='arg': continue
        print(' base',b)
        while n is not None:
            print('   ',n.kind,'g=',n.guard,'q=',[(q,t) for q,t in n.quants],'off=',n.off,'w=',n.w,'v=',str(n.val)[:300], n.site.get('line') if isinstance(n.site,dict) else n.site)
            n=n.prev
    if 'all' in sys.argv:
        for n in (A.chain() if hasattr(A,'chain') else []): print(n)
