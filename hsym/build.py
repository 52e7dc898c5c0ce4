#!/usr/bin/env python3
"""Build the symbolic-execution image of /repo (see DESIGN.md).

  build.py tools      runtime, instrumenter, inline helpers
  build.py prog       cargo (unoptimised LLVM bitcode of hongdown, its dependencies and std)
                      -> instrument -> prog.so
  build.py replay     ordinary native build of the same harness (counterexample replay)
  build.py all
Everything is written below CACHE (git-ignored)."""
import os, sys, subprocess, hashlib, glob, shutil, time, re, fcntl
from concurrent.futures import ThreadPoolExecutor
HERE=os.path.dirname(os.path.abspath(__file__)); ROOT=os.path.dirname(HERE)
CACHE=os.environ.get('HSYM_CACHE',os.path.join(ROOT,'.cache')); REPO=os.environ.get('HSYM_REPO','/repo')
TC='stable-x86_64-unknown-linux-gnu'
def run(cmd,**kw):
    r=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**kw)
    if r.returncode: sys.stderr.write(r.stdout[-6000:]); raise SystemExit(f'build step failed: {cmd if isinstance(cmd,str) else " ".join(cmd)[:400]}')
    return r.stdout
def sysroot(): return run(['rustc','+'+TC,'--print','sysroot']).strip()
def hfile(*ps):
    h=hashlib.sha256()
    for p in ps:
        with open(p,'rb') as f: h.update(f.read())
    return h.hexdigest()[:24]
def repo_hash():
    h=hashlib.sha256(); fs=[]
    for d,ds,f in os.walk(os.path.join(REPO,'src')):
        ds.sort(); fs+= [os.path.join(d,x) for x in sorted(f)]
    fs+=[os.path.join(REPO,'Cargo.toml'),os.path.join(REPO,'Cargo.lock')]
    for p in fs:
        h.update(p.encode()); h.update(open(p,'rb').read())
    return h.hexdigest()[:24]
def uptodate(stampfile,key):
    try: return open(stampfile).read()==key
    except OSError: return False
def stamp(stampfile,key):
    with open(stampfile,'w') as f: f.write(key)

def tools():
    b=os.path.join(CACHE,'bin'); os.makedirs(b,exist_ok=True)
    S=sysroot(); lib=[x for x in glob.glob(S+'/lib/libLLVM.so*') if not x.endswith('.so')] or glob.glob(S+'/lib/libLLVM*.so*')
    lib=sorted(lib)[0]
    jobs=[['clang-18','-O1','-fno-vectorize','-fno-slp-vectorize','-fno-unroll-loops','-emit-llvm','-c',HERE+'/rt/inline.c','-o',b+'/inline.bc'],
      ['g++','-O2','-std=c++17','-w','-I/usr/lib/llvm-18/include',HERE+'/instr/instr.cpp','-o',b+'/instr','-L'+S+'/lib','-l:'+os.path.basename(lib),'-Wl,-rpath,'+S+'/lib'],
      ['g++','-O2','-std=c++17','-w',HERE+'/rt/rt.cpp','-o',b+'/hsym-rt','-rdynamic','-ldl','-lz3']]
    def do(a):
        cmd,srcs=a; o=[cmd[i+1] for i in range(len(cmd)) if cmd[i]=='-o'][0]; k=hfile(*[os.path.join(HERE,x) for x in srcs])+str(cmd)
        if os.path.exists(o) and uptodate(o+'.st',k): return
        run(cmd); stamp(o+'.st',k)
    with ThreadPoolExecutor(3) as ex: list(ex.map(do,zip(jobs,[['rt/layout.h','rt/inline.c'],['rt/layout.h','instr/instr.cpp'],['rt/layout.h','rt/rt.cpp']])))

def patches():
    """memchr: the vector/SWAR code is swapped for the crate's own byte-by-byte fallback."""
    dst=os.path.join(CACHE,'patch','memchr')
    if os.path.exists(dst+'/.done'): return
    src=glob.glob(os.path.expanduser('~/.cargo/registry/src/*/memchr-2.7.6'))[0]
    shutil.rmtree(dst,ignore_errors=True); shutil.copytree(src,dst)
    for f in ['src/arch/mod.rs','src/memchr.rs','src/memmem/searcher.rs','src/vector.rs','src/lib.rs']:
        p=dst+'/'+f; os.chmod(p,0o644); s=open(p).read().replace('target_arch = "x86_64"','target_arch = "hsym_none"'); open(p,'w').write(s)
    p=dst+'/src/arch/all/memchr.rs'; os.chmod(p,0o644); s=open(p).read(); n=s.count('if len < USIZE_BYTES {'); assert n>=6,n
    open(p,'w').write('#![allow(unused)]\n'+s.replace('if len < USIZE_BYTES {','if true || len < USIZE_BYTES {'))
    stamp(dst+'/.done','1')

DENY='clap clap_builder clap_lex clap_derive anstream anstyle anstyle_parse anstyle_query colorchoice proc_macro onig onig_sys bincode plist addr2line gimli object miniz_oxide flate2 compiler_builtins rustc_demangle rayon rayon_core crossbeam_deque crossbeam_epoch crossbeam_utils ignore walkdir rustix shell_words xdg is_terminal_polyfill similar dirs dirs_sys libc panic_unwind panic_abort unwind strsim terminal_size glob same_file linux_raw_sys adler2 simd_adler32 crc32fast fmt2io rustc_literal_escaper option_ext bstr tinyvec_macros log fnv equivalent either std_detect_unused rustc_std_workspace_alloc rustc_std_workspace_core utf8parse'.split()
DEPS_PLAIN=set()
def cargo_env(target,extra_flags=''):
    e=dict(os.environ); e.update(RUSTUP_TOOLCHAIN=TC,RUSTC_BOOTSTRAP='1',CARGO_NET_OFFLINE='true',CARGO_TARGET_DIR=target,CARGO_TERM_COLOR='never')
    e['RUSTFLAGS']=extra_flags; e.pop('CARGO_ENCODED_RUSTFLAGS',None); return e
def refresh(target,profdir):
    """cargo's freshness test is mtime based; force hongdown and the harness to be rebuilt when their contents changed"""
    key=repo_hash()+hfile(*sorted(glob.glob(HERE+"/harness/src/**/*.rs",recursive=True)+[HERE+"/harness/Cargo.toml",HERE+"/build.py"]))
    st=os.path.join(target,'src-stamp')
    if not uptodate(st,key):
        for pat in ('hongdown-*','harness-*'):
            for p in glob.glob(os.path.join(profdir,'.fingerprint',pat)): shutil.rmtree(p,ignore_errors=True)
        for p in glob.glob(os.path.join(profdir,'deps','*hongdown*.bc'))+glob.glob(os.path.join(profdir,'deps','harness*.bc')): os.unlink(p)
    return st,key

def prog():
    tools(); patches()
    T=os.path.join(CACHE,'bc'); P=os.path.join(T,'x86_64-unknown-linux-gnu','release'); os.makedirs(T,exist_ok=True)
    st,key=refresh(T,P)
    if not (uptodate(st,key) and glob.glob(P+'/deps/harness*.bc')):
        env=cargo_env(T,'-C no-prepopulate-passes -Z inline-mir=no -Z share-generics=no -C save-temps=no --emit=llvm-bc,link -C embed-bitcode=no --cfg hsym --cfg hongdown_verif')
        _t=time.time(); run(['cargo','build','--release','--offline','--lib','-Zbuild-std=std,panic_abort','--target','x86_64-unknown-linux-gnu','--config','patch.crates-io.memchr.path="'+CACHE+'/patch/memchr"'],env=env,cwd=HERE+'/harness')
        if os.environ.get('HSYM_V'): print('cargo bc %.1fs'%(time.time()-_t))
        stamp(st,key)
    out=os.path.join(CACHE,'prog'); os.makedirs(out+'/o',exist_ok=True)
    tool=hfile(CACHE+'/bin/instr',CACHE+'/bin/inline.bc',HERE+'/models.txt',HERE+'/keep.txt')+'v3'
    S=sysroot(); nm=glob.glob(S+'/lib/rustlib/x86_64-unknown-linux-gnu/bin/llvm-nm')[0]
    bcs=sorted(glob.glob(P+'/deps/*.bc')); main=[]; deps=[]
    for b in bcs:
        n=os.path.basename(b)[:-3]; c=re.sub(r'-[0-9a-f]{16}$','',n)
        if c in ('hongdown','harness'): main.append(b)
        elif c not in DENY and os.path.getsize(b)>3000: deps.append((n,b))
    main.sort(key=lambda b:'harness' in b)
    def one(a):
        n,ins,keep=a; k=hfile(*ins)+tool; o=f'{out}/o/{n}.o'
        os_=[o]+([f'{o}.{i}' for i in range(1,8)] if keep else [])
        if uptodate(o+'.st',k) and all(os.path.exists(x) for x in os_): return os_
        t=time.time()
        log=run([CACHE+'/bin/instr','--inline',CACHE+'/bin/inline.bc','--models',HERE+'/models.txt']+(['--keep',HERE+'/keep.txt','--split','8'] if keep else [])+['-o',o]+ins)
        open(o+'.log','w').write(log); stamp(o+'.st',k)
        if os.environ.get('HSYM_V'): print(n,'%.1fs'%(time.time()-t))
        return os_
    work=[('main',main,True)]+[(n,[b],False) for n,b in sorted(deps,key=lambda x:-os.path.getsize(x[1]))]
    with ThreadPoolExecutor(8) as ex: objs=[o for os_ in ex.map(one,work) for o in os_]
    keep=set(objs)
    for o in glob.glob(out+'/o/*.o')+glob.glob(out+'/o/*.o.[0-9]'):
        if o not in keep: os.unlink(o)
    k=hfile(*objs)+tool
    if uptodate(out+'/so.st',k) and os.path.exists(out+'/prog.so') and os.path.exists(out+'/functions.txt'): return
    # allocator shims
    pre=re.search(r'(_RNvC\w+_7___rustc)12___rust_alloc\b',run([nm]+[o for o in objs if '/alloc-' in o])).group(1)
    ds={'12___rust_alloc':'11___rdl_alloc','14___rust_dealloc':'13___rdl_dealloc','14___rust_realloc':'13___rdl_realloc','19___rust_alloc_zeroed':'18___rdl_alloc_zeroed'}
    stub=out+'/stub.c'
    und=link(out,objs,pre,ds,stub,{},False)
    link(out,objs,pre,ds,stub,und,True)
    fs=set()
    for l in run([nm,'--demangle','--defined-only','--format=just-symbols',out+'/prog.so']).splitlines():
        l=re.sub(r'(\[[0-9a-f]{8,}\]|::h[0-9a-f]{16}$| \(\.hsymm\d+\))','',l.strip())
        m=re.match(r'<?(hongdown|comrak)::',l)
        if m and '{closure' not in l and len(l)<160: fs.add(l)
    open(out+'/functions.txt','w').write('\n'.join(sorted(fs))+'\n')
    stamp(out+'/so.st',k)
def link(out,objs,pre,ds,stub,und,final):
    with open(stub,'w') as f:
        f.write('unsigned __attribute__((visibility("hidden"))) __s_args[64], __s_ret[64]; unsigned*__s_args_p=__s_args,*__s_ret_p=__s_ret;\nextern void __s_undef(const char*) __attribute__((noreturn));\n')
        f.write(f'void {pre}35___rust_no_alloc_shim_is_unstable_v2(void){{}}\n')
        for i,u in enumerate(sorted(und)):
            f.write(f'void hsym_u{i}(void) __asm__("{u}"); void hsym_u{i}(void){{ __s_undef("{u}"); }}\n')
    run(['gcc','-O1','-fPIC','-w','-c',stub,'-o',out+'/stub.o'])
    cmd=['gcc','-shared','-o',out+'/prog.so.tmp',out+'/stub.o']+objs+['-Wl,-Bsymbolic','-Wl,-z,now','-Wl,-z,norelro','-Wl,--gc-sections','-Wl,-u,hsym_entry','-Wl,-u,hsym_warmup','-lgcc','-lm','-Wl,--allow-multiple-definition','-Wl,-z,defs','-Wl,--no-demangle','-Wl,--warn-unresolved-symbols']
    for a,b in ds.items(): cmd.append(f'-Wl,--defsym,{pre}{a}={pre}{b}')
    o=run(cmd)
    us=set(re.findall(r"undefined reference to `([^']+)'",o))
    # keep what the runtime or libc provides
    us={u for u in us if not u.startswith('__s')}
    libc=libcsyms()
    us={u for u in us if u not in libc}
    if final: os.replace(out+'/prog.so.tmp',out+'/prog.so')
    return us
def libcsyms():
    o=run('nm -D --defined-only /lib/x86_64-linux-gnu/libc.so.6 /lib/x86_64-linux-gnu/libm.so.6 /lib/x86_64-linux-gnu/libgcc_s.so.1',shell=True)
    return set(x.split()[-1].split('@')[0] for x in o.splitlines() if x.strip() and ' ' in x)

def replay():
    T=os.path.join(CACHE,'native'); P=os.path.join(T,'release'); os.makedirs(T,exist_ok=True)
    st,key=refresh(T,P)
    if uptodate(st,key) and os.path.exists(P+'/replay'): return
    run(['cargo','build','--release','--offline','--bin','replay'],env=cargo_env(T,'--cfg hongdown_verif'),cwd=HERE+'/harness'); stamp(st,key)

if __name__=='__main__':
    os.makedirs(CACHE,exist_ok=True)
    lk=open(CACHE+'/lock','w'); fcntl.flock(lk,fcntl.LOCK_EX)
    for a in sys.argv[1:] or ['all']:
        t=time.time()
        if a=='all':
            with ThreadPoolExecutor(2) as ex:
                for f in [ex.submit(prog),ex.submit(replay)]: f.result()
        if a=='tools': tools()
        if a=='prog': prog()
        if a=='replay': replay()
        print(a,'%.1fs'%(time.time()-t))
