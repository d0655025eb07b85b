import sys,json,importlib,time,re
sys.path[:0]=['/verif/engine','/verif/specs']
import runner
m=importlib.import_module(sys.argv[1])
what={'ref':runner.w_auto,'alias':runner.w_alias,'init':runner.w_init,'bounds':runner.w_asserts,'shift':runner.w_asserts}[sys.argv[3] if len(sys.argv)>3 else 'ref']
t=time.time()
es=m.entries('quick')
if len(sys.argv)>2 and sys.argv[2]!='-':
    es=[e for e in es if re.search(sys.argv[2],e.id)]
cnt={}
kind=sys.argv[3] if len(sys.argv)>3 else ''
if kind in('bounds','shift'):
    for e in es: e.flags=['-D_GLIBCXX_ASSERTIONS'] if kind=='bounds' else ['-fsanitize=shift-exponent','-fsanitize-trap=shift-exponent']
N={}
for r in runner.run_entries(es,what=what):
    cnt[r['status']]=cnt.get(r['status'],0)+1
    for k,v in r.get('counts',{}).items(): N[k]=N.get(k,0)+v
    if r['status']=='proved': continue
    shown=globals().get('shown',0)+1
    if shown>12 and r['status']!='refuted': continue
    why=str(r.get('why',''))[-300:]
    print(r['status'].upper().ljust(9),r['id'],r.get('t'),why,r.get('unknowns',''),r.get('notes',''), 'DEEP' if r.get('deep') else '')
    for o,d in r['outs'].items():
        if d['status']!='proved':
            print('    ',o,d['why'][:100],{k:str(v)[:60] for k,v in (d.get('witness') or {}).items()})
            if 'got' in d: print('       got ',str(d['got'])[:500]); print('       want',str(d['expected'])[:500])
print(N or '',cnt, round(time.time()-t,1),'s')
