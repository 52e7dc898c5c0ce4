#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the catalogue."""
import sys, os, json
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,ROOT+'/hsym')
import catalog
NA={'C19':"the conversion from JsOptions is private to src/wasm.rs, which is compiled only for the wasm32 target with wasm-bindgen; its generated JavaScript glue cannot be executed symbolically here",
'C20':"the modes are file-system effects of the binary (src/main.rs, private functions around clap, walkdir, rayon threads and std::fs); that code reaches the kernel through system calls and cannot be encoded as a pure function of symbolic inputs without replacing the part the property is about",
'C21':"the guarantee concerns child processes, pipes, threads and time-outs (src/serializer/formatter.rs); the outcome is decided in the kernel and in the spawned program, neither of which can be encoded",
'C30':"the set of files is computed by the glob, walkdir and ignore crates reading a directory tree through system calls; the tree, not the arguments, is the input, and it cannot be made symbolic within reach"}
checks=[]
for p in sorted(catalog.CAT):
    n=len(catalog.templates(p,'quick')); m=len(catalog.templates(p,'thorough'))
    checks.append({'property':p,'quick_cmd':f'python3 check.py {p} quick','thorough_cmd':f'python3 check.py {p} thorough',
     'technique':'symbolic execution of the compiled code (LLVM bitcode of hongdown, comrak and std) with Z3 deciding every branch and assertion',
     'level':'model_checking',
     'level_note':f'bounded: {n} document templates (quick; {m} thorough) with symbolic characters, alternatives and option values; every path of each template is explored or refuted, inputs outside the templates are not covered; every counterexample is replayed on the ordinary build'})
json.dump({'version':1,'setup_cmd':'python3 hsym/build.py all','hooks':{'guard':'cfg(hongdown_verif)','enable':'RUSTFLAGS --cfg hongdown_verif (no hook is needed at present: the checks use the public API)','source_commits':[]},
 'checks':checks,'not_applicable':[{'property':k,'reason':v} for k,v in sorted(NA.items()) if k not in catalog.CAT]},open(ROOT+'/MANIFEST.json','w'),indent=1)
print(len(checks))
