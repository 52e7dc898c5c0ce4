#!/usr/bin/env python3
"""sweep.py [-t] PROP...: explore a property's templates, print each violation (no build, no evidence)"""
import sys,time,json,os
from eng import *; import catalog
tier='thorough' if '-t' in sys.argv else 'quick'; mx=int(os.environ.get('MAXV','6')); dl=int(os.environ.get('DL','200'))
ROOT_=os.path.dirname(HERE)
try: KN=[json.loads(l) for l in open(ROOT_+'/known-findings.jsonl') if l.strip().startswith('{')]
except OSError: KN=[]
for pid in [a for a in sys.argv[1:] if a[0]!='-']:
    tp=catalog.templates(pid,tier)
    if '-T' in sys.argv: tp=catalog.CAT[pid][1]()
    kf=[k['pattern'] for k in KN if k['property']==pid and k.get('status')!='fixed']
    sp=[spec(t,t.prop or pid,kf) for t in tp]; t0=time.time(); rc,err,J,V=run(sp,max_viol=mx,deadline=dl,run_limit=10)
    print('==',pid,tier,len(sp),'templates','paths',sum(x['runs'] for x in J.values()),'wall %.1f'%(time.time()-t0),'incomplete',[tp[i].doc for i in range(len(sp)) if i not in J or not J[i]['complete']],'rc',rc,err[-300:] if rc else '',{k:v for x in J.values() for k,v in x['ext'].items()})
    print('   slow',sorted([(round(x['t'],1),tp[j].doc[:40]) for j,x in J.items()],reverse=True)[:4], 'vacuous',[tp[j].doc for j,x in J.items() if not x['reach'].get('1') and not x['viol']])
    last=None
    for v in V:
        if v['j']!=last: print('  T',repr(tp[v['j']].doc),tp[v['j']].opts); last=v['j']
        r,txt=replay(sp[v['j']],v['as']); print('    ',{3:'VIOL',4:'PANIC',5:'TIMEOUT',6:'CRASH',7:'OOM',8:'ERR'}.get(v['outcome'],v['outcome']),v['id'],v['msg'][:100] if v['outcome']!=3 else '',repr(v['note'])[:160],'replay',r,v['as'] if tp[v['j']].opts else '')
    sys.stdout.flush()
