#!/usr/bin/env python3
"""Explore templates by hand: try.py PROP 'doc template' ['opts'] """
import sys,json,time; from eng import *
def esc(s): return s.encode().decode('unicode_escape').encode('latin1').decode() if '\\' in s else s
prop=sys.argv[1]; docs=[]; opts=''; mv=30; dl=120
for a in sys.argv[2:]:
    if a.startswith('-o'): opts=a[2:]
    elif a.startswith('-m'): mv=int(a[2:])
    elif a.startswith('-d'): dl=int(a[2:])
    else: docs.append(a.replace('\\n','\n'))
sp=[spec(Tpl(d,opts),prop) for d in docs]
if prop=='show':
    for s in sp: print(replay(s,[])[1])
    sys.exit()
t=time.time(); rc,err,J,V=run(sp,max_viol=mv,deadline=dl)
if rc: print('rc',rc,err[-500:])
for v in V:
    n=json.loads('"'+v['note'].replace('"','\\"')+'"') if 0 else v['note']
    print(v['j'],{3:'VIOL',4:'PANIC',5:'TIMEOUT',6:'CRASH',7:'OOM',8:'ERR'}.get(v['outcome'],v['outcome']),v['id'],v['msg'][:150],repr(n)[:200], replay(sp[v['j']],v['as'])[0])
for j in sorted(J):
    x=J[j]; print(j,repr(docs[j])[:60],{k:x[k] for k in('runs','ok','viol','panic','timeout','err','z3q','multi','conc','hasM','domain','covered','complete')},'%.1f'%x['t'],x['ext'])
print('wall %.1f'%(time.time()-t))
