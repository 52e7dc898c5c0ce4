"""Job construction, symbolic runs, counterexample replay."""
import os, sys, subprocess, json, glob, tempfile, shutil, re, time
HERE=os.path.dirname(os.path.abspath(__file__)); ROOT=os.path.dirname(HERE)
CACHE=os.environ.get('HSYM_CACHE',os.path.join(ROOT,'.cache'))
AL={}
def alpha(name,toks):
    toks=list(dict.fromkeys(toks)); w=len(toks[0].encode()); assert all(len(t.encode())==w for t in toks),name; AL[name]=toks
alpha('A',[chr(c) for c in [10]+list(range(32,127))])
alpha('P',list('\n !"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~aA1'))
alpha('T',[chr(c) for c in range(32,127)])
alpha('D',list('0123456789'))
alpha('L',list('abcdefghijklmnopqrstuvwxyz'))
alpha('U',list('ABCDEFGHIJKLMNOPQRSTUVWXYZ'))
alpha('LU',list('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'))
alpha('M',list('*_`~[]<>!\\ a'))
alpha('W',['漢','字','…','“','—','ア','–','’'])
alpha('E',['é','ß','À','Ω','ж'])
ESC={'n':'\n','t':'\t','\\':'\\'}
class Tpl:
    """prop, opts dict, doc template.  {X}: symbolic character from alphabet X, {a|b}: alternatives,
    {=chars}: symbolic character out of the given ones.  '{{' and '}}' are literal braces."""
    def __init__(s,doc,opts='',prop=None,args=(),name=''):
        s.doc=doc; s.opts=opts; s.prop=prop; s.args=tuple(args); s.name=name
def compile_doc(t):
    al=[]; 
    def aidx(toks):
        toks=tuple(toks)
        if toks not in al: al.append(toks)
        return bytes([1,32+al.index(toks)])
    def parse(i,inalt):
        out=b''
        while i<len(t):
            c=t[i]
            if t[i:i+2] in('{{','}}') : out+=c.encode(); i+=2; continue
            if inalt and c in '|}': return out,i
            if c=='{':
                # alphabet, char set or alternatives
                m=re.match(r'\{([A-Z]+)\}',t[i:])
                if m and m.group(1) in AL: out+=aidx(AL[m.group(1)]); i+=m.end(); continue
                if t[i+1]=='=':
                    j=t.index('=}',i+2); out+=aidx(list(t[i+2:j])); i=j+2; continue
                alts=[]; i+=1
                while True:
                    a,i=parse(i,True); alts.append(a)
                    if t[i]=='}': i+=1; break
                    i+=1
                out+=b'\x02'+b'\x03'.join(alts)+b'\x04'; continue
            if c=='\\' and t[i+1:i+2]=='|' and inalt: out+=b'|'; i+=2; continue
            out+=c.encode(); i+=1
        return out,i
    body,_=parse(0,False)
    return body,al
def spec(t,prop=None,known=()):
    body,al=compile_doc(t.doc)
    als=b'\x1d'.join(str(len(a[0].encode())).encode()+''.join(a).encode() for a in al)
    p='\x1f'.join([prop or t.prop]+list(t.args)).encode()
    o='\x1f'.join(x for x in t.opts.split(';') if x).encode()
    return p+b'\x1e'+o+b'\x1e'+als+b'\x1e'+body+b'\x1e'+b'\x1d'.join(k.encode() for k in known)
def run(specs,jobs=8,run_limit=5,deadline=600,max_viol=20,job_limit=1e9):
    """-> (per-job merged dicts, violations)"""
    d=tempfile.mkdtemp(prefix='hsym'); 
    try:
        with open(d+'/jobs','wb') as f:
            for s in specs: assert b'\0' not in s; f.write(s+b'\0')
        r=subprocess.run([CACHE+'/bin/hsym-rt','--so',CACHE+'/prog/prog.so','--jobs',d+'/jobs','--out',d+'/out','-j',str(jobs),'--run-limit',str(run_limit),'--deadline',str(deadline),'--max-viol',str(max_viol),'--job-limit',str(job_limit)],stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True)
        J={}; V=[]
        for fn in glob.glob(d+'/out.*'):
            for l in open(fn,errors='replace'):
                try: x=json.loads(l)
                except ValueError: r.returncode=r.returncode or 3; continue
                if x['kind']=='viol': V.append(x); continue
                m=J.get(x['j'])
                if m is None: J[x['j']]=x; continue
                for k,v in x.items():
                    if k in('j','kind','domain','sample','sas'): continue
                    if k=='complete': m[k]=m[k] and v
                    elif k in('reach','ext'):
                        for a,b in v.items(): m[k][a]=m[k].get(a,0)+b
                    elif k in('vars','nodes','hasM'): m[k]=max(m[k],v)
                    elif isinstance(v,(int,float)): m[k]+=v
                m['domain']=max(m['domain'],x['domain']); 
                if not m['sample']: m['sample'],m['sas']=x['sample'],x['sas']
        V.sort(key=lambda v:(v['j'],len(v['note']),v['as']))
        return r.returncode,r.stderr,J,V
    finally: shutil.rmtree(d,ignore_errors=True)
def replay(sp,as_,timeout=20):
    """native re-execution -> (status, text)"""
    d=tempfile.mkdtemp(prefix='hsymr')
    try:
        open(d+'/spec','wb').write(sp)
        try: r=subprocess.run([CACHE+'/native/release/replay',d+'/spec',','.join(map(str,as_))],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=timeout,errors='replace',text=True)
        except subprocess.TimeoutExpired: return 12,'timeout'
        return r.returncode,r.stdout
    finally: shutil.rmtree(d,ignore_errors=True)
