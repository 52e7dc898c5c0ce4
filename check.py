#!/usr/bin/env python3
"""check.py <PROPERTY> [quick|thorough]   exit 0 held, 1 violation, 2 no answer"""
import sys, os, json, time, base64, glob, subprocess
ROOT=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,ROOT+'/hsym')
import eng, catalog
def main():
    pid=sys.argv[1]; tier=sys.argv[2] if len(sys.argv)>2 else os.environ.get('VERIF_TIER','quick'); seed=int(os.environ.get('VERIF_SEED','1'))
    t0=time.time()
    b=subprocess.run([sys.executable,ROOT+'/hsym/build.py','all'],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    if b.returncode: print(b.stdout[-4000:]); print('NO ANSWER: the symbolic image of /repo could not be built'); return 2
    tb=time.time()-t0
    tpls=catalog.templates(pid,tier)
    kf=[k for k in load_known() if k['property']==pid and k.get('status')!='fixed']
    specs=[eng.spec(t,t.prop or pid,[k['pattern'] for k in kf]) for t in tpls]
    deadline=float(os.environ.get('HSYM_DEADLINE','420' if tier=='quick' else '3000'))
    rc,err,J,V=eng.run(specs,deadline=deadline,run_limit=10,max_viol=12)
    ts=time.time()-t0-tb
    rdir=os.path.join(ROOT,'replays',pid); os.makedirs(rdir,exist_ok=True)
    for f in glob.glob(rdir+'/*.json'): os.unlink(f)
    confirmed=[]; unconf=[]
    for v in V:
        if len(confirmed)>=40: break
        r,txt=eng.replay(specs[v['j']],v['as'],timeout=30)
        if r in(10,11,12):
            p=f'{rdir}/{len(confirmed)}.json'
            json.dump({'property':pid,'template':tpls[v['j']].doc,'options':tpls[v['j']].opts,'document':v['note'],'check':v['id'],'engine':v['msg'],'native':txt[-2000:],'assignment':v['as'],'spec':base64.b64encode(specs[v['j']]).decode()},open(p,'w'),indent=1)
            confirmed.append((v,p))
        else: unconf.append({'document':v['note'],'engine':v['msg'],'outcome':v['outcome'],'native_rc':r})
    # the listed findings: each must still fail on the real code
    findings=[]
    for k in kf:
        r,txt=eng.replay(eng.spec(eng.Tpl(k['doc'].replace('{','{{').replace('}','}}'),k.get('opts',''),args=k.get('args',())),pid,[]),[],timeout=30)
        if r in(10,11,12): print(f"KNOWN-FINDING: property={pid} {k['what']} [{k['doc']!r}]"); findings.append(k['what'])
    # conformance: one explored path per job is re-run on the ordinary build
    okr=bad=0
    for j,x in J.items():
        if x.get('ok') and x.get('sas') is not None:
            r,_=eng.replay(specs[j],x['sas'].split(',') if x['sas'] else [],timeout=30)
            if r==0: okr+=1
            else: bad+=1; unconf.append({'sample':x['sample'],'native_rc':r})
    tot=lambda k:sum(x.get(k,0) for x in J.values())
    missing=[i for i in range(len(specs)) if i not in J]; inc=[i for i,x in J.items() if not x['complete']]
    vac=[tpls[i].doc for i,x in J.items() if not x['reach'].get('1') and not x['viol']]
    ext={}
    for x in J.values():
        for a,n in x['ext'].items(): ext[a]=ext.get(a,0)+n
    ev={'property':pid,'tier':tier,'seed':seed,'level':'model_checking','wall_s':round(time.time()-t0,2),'violations':len(confirmed),
     'assumptions':catalog.ASSUMPTIONS,
     'coverage':{'states':tot('runs'),'transitions':tot('splits')+tot('implied'),'traces_validated_against_impl':okr+len(confirmed),
      'samples':[{'template':tpls[i].doc,'options':tpls[i].opts,'an explored document':x['sample'],'paths':x['runs'],'inputs covered':x['covered']} for i,x in list(sorted(J.items()))[:8]],
      'symbolic_templates':len(specs),'templates_exhausted':len(J)-len(inc),'templates_incomplete':len(inc)+len(missing),'exhaustive':not inc and not missing,
      'paths':tot('runs'),'paths_with_more_than_one_input':tot('sympaths'),'inputs_covered_by_those_paths':tot('covered'),'input_domain_of_the_templates':tot('domain'),
      'assertions_decided':tot('asserts'),'branch_sides_refuted_by_z3':tot('vclaims'),'z3_queries':tot('z3q')+tot('vbatch'),'z3_sat':tot('z3sat'),'z3_unsat':tot('z3unsat'),'z3_unknown':tot('z3unknown'),'solver_s':round(tot('z3t'),2),
      'build_s':round(tb,2),'explore_s':round(ts,2),'paths_assumed_away':tot('assumed'),'vacuous_templates':vac,'known_findings_hit':len(findings),'conformance_replays_ok':okr,'conformance_mismatches':unconf[:10],'calls_left_uninterpreted':ext,
      'functions_encoded':catalog.functions(),'bounds':catalog.bounds(tpls),
      'rule':'a state is one path of the compiled formatter (hongdown, comrak, std) under symbolic characters/options; every other side of every symbolic branch is queued or refuted by Z3'}}
    os.makedirs(ROOT+'/evidence',exist_ok=True); json.dump(ev,open(f'{ROOT}/evidence/{pid}.json','w'),indent=1)
    print(f"{pid} {tier}: {len(specs)} templates, {tot('runs')} paths, {tot('covered'):.0f} inputs, z3 {tot('z3q')+tot('vbatch')} queries {tot('z3t'):.1f}s, build {tb:.0f}s explore {ts:.0f}s, incomplete {len(inc)+len(missing)}, vacuous {len(vac)}, mismatches {len(unconf)}")
    for v,p in confirmed: print(f"VIOLATION property={pid} replay={p}"); print('   ',v['note'][:300])
    if confirmed: return 1
    if rc and not J: print(err[-2000:]); print('NO ANSWER: engine failure'); return 2
    return 0
def load_known():
    try: return [json.loads(l) for l in open(ROOT+'/known-findings.jsonl') if l.strip().startswith('{')]
    except FileNotFoundError: return []
if __name__=='__main__': sys.exit(main())
