"""Combinations of constructs: container x block, block x block, inline x inline x context.
Every function returns documents (template syntax of catalog.py)."""
def pre(first,rest):
    def f(t):
        ls=t.split('\n'); out=[first+ls[0]]
        for l in ls[1:]: out.append((rest+l) if l else rest.rstrip(' '))
        return '\n'.join(out)
    return f
def comp(f,g): return lambda t:f(g(t))
q=pre('> ','> '); ul=pre('- ','  '); ol=pre('1. ','   ')
CONT={'top':lambda t:t,'q':q,'ul':ul,'ol':ol,'ul2':lambda t:'- z\n\n'+ul(t),'dd':lambda t:'z\n'+pre(': ','  ')(t),'fn':lambda t:'z[^1]\n\n'+pre('[^1]: ','    ')(t),
 'alert':lambda t:'> [!NOTE]\n'+q(t),'q-ul':comp(q,ul),'ul-q':comp(ul,q),'ul-ul':comp(ul,ul),'ol-ul':comp(ol,ul),'ul-ol':comp(ul,ol),'q-q':comp(q,q),'after':lambda t:'- z\n\n'+t,'sub':lambda t:'- z\n'+pre('  ','  ')(t)}
# blocks with one free place H
BLOCK={'para':'a{H}b\nc','head':'# a{H}b','head2':'## a{H}','head3':'### a{H}','setext':'a{H}b\n---','fence':'~~~ t\na{H}\n\n  b\n~~~','bfence':'```\n{H}b\n```','icode':'    a{H}\n\n      b','html':'<div>\na{H}\n</div>','comment':'<!-- a{H} -->',
 'table':'| a{H} | b |\n|---|:-:|\n| c | d{H} |','ul':'* a{H}\n* b','loose':'* a\n\n* b{H}','nest':'* a\n  * b{H}\n* c','ol':'3. a\n4. b{H}','ol)':'1) a\n2) b{H}','task':'- [x] a{H}\n- [ ] b','q':'> a{H}\n> b','alert':'> [!TIP]\n> a{H}','hr':'***','dl':'a{H}\n: b\n: c','dll':'a\n\n: b{H}\n\n  c','fn':'a[^q]\n\n[^q]: b{H}','ref':'a [l]{H}\n\n[l]: /u "t"'}
# rarer ones, kept apart (BLOCK is also the set of second blocks)
RARE={'abbr':'*[ab]: c{H}d','next':'<!-- hongdown-disable-next-line -->\na{H}  b','sect':'<!-- hongdown-disable-next-section -->\n\na{H}  b','reg':'<!-- hongdown-disable -->\n\na{H}  b\n\n<!-- hongdown-enable -->','pre':'<pre>\na{H}\n\nb\n</pre>','inhtml':'<i>a{H}</i>','type7':'<a href="b">\nc{H}','ulul':'- - a{H}\n- b','olul':'1. - a\n     b{H}','ulq':'- > a{H}\n- b','ulf':'- ~~~\n  a{H}\n  ~~~','uli':'-     a{H}\n\n  b','qul':'> - a{H}\n>   b','qf':'> ~~~\n> a{H}\n> ~~~','qq':'> > a{H}\n> b','empty':'-\n\n  a{H}','emptyli':'-\n- a{H}','ol0':'0. a{H}\n1. b','ol999':'999999999. a{H}','hard':'a{H}\\\nb','img':'![a{H}](b)','badge':'[![a](b)](c{H})','setext1':'a{H}\n===','h6':'###### a{H}','tbl1':'a | b\n-|-\nc{H}|d|e','dltil':'a\n\n: b{H}\n\n: c','fnb':'a[^z]\n\n[^z]:\n    - b{H}\n\n    c'}
INLINE={'code':'`b c`','code2':'``b`c``','em':'*b c*','strong':'**b c**','del':'~~b c~~','link':'[b c](d)','linkt':'[b](d "e f")','ref':'[b][r]','short':'[r]','img':'![b](d)','auto':'<https://e.org>','bare':'https://e.org/x','html':'<i>','ent':'&amp;','esc':'\\*','dq':'"b c"','sq':"'b c'",'ell':'...','dash':'--','hard':'\\\nb','fn':'[^f]','em_':'_b c_','wide':'漢字','mail':'a@b.org'}
DEFS='\n\n[r]: d\n\n[^f]: g\n'
CTX={'para':lambda t:t,'head':lambda t:'# '+t,'li':lambda t:'- '+t,'q':lambda t:'> '+t,'cell':lambda t:'| '+t+' | b |\n|---|---|','dt':lambda t:t+'\n: b','dd':lambda t:'a\n: '+t,'em':lambda t:'*a '+t+' b*','strong':lambda t:'**a '+t+' b**','link':lambda t:'[a '+t+' b](c)'}
def blocks(H='{P}',cont=CONT,names=None):
    return [cont[c](b.replace('{H}',H))+'\n' for c in cont for n,b in BLOCK.items() if names is None or n in names]
def pairs(sep='{\n|\n\n|\n\n\n}',cont=('top','q','ul','ol'),names=None,names2=None,H=''):
    skip=lambda c,n,m: c=='fn' and 'fn' in (n,m)
    return [CONT[c](a.replace('{H}',H)+sep+b.replace('{H}',''))+'\n' for c in cont for n,a in BLOCK.items() if names is None or n in names for m,b in BLOCK.items() if (names2 is None or m in names2) and not skip(c,n,m)]
def seppairs(cont=('top',),names=None,names2=None):
    """adjacent blocks with one, two or three line ends between them"""
    r=[]
    for s in ('\n','\n\n','\n\n\n'): r+=pairs(s,cont,names,names2)
    return r
def inl(ctx=CTX,names=None,sep='{P}',pre_='x ',post=' y'):
    return [ctx[c](pre_+a+sep+post)+DEFS for c in ctx for n,a in INLINE.items() if (names is None or n in names) and not (c in('head','cell','link') and n=='hard')]
def inl2(ctx=('para',),names=None,names2=None,sep='{P}'):
    return [CTX[c]('x '+a+sep+b+' y')+DEFS for c in ctx for n,a in INLINE.items() if names is None or n in names for m,b in INLINE.items() if names2 is None or m in names2]
def merge(docs,n=12):
    """one template out of several documents"""
    r=[]
    for i in range(0,len(docs),n):
        g=docs[i:i+n]; r.append('{'+'|'.join(d.replace('|','\\|') for d in g)+'}' if len(g)>1 else g[0])
    return r
SEP='{\n|\n\n|\n\n\n}'
def alts(docs): return '{'+'|'.join(d.replace('|','\\|') for d in docs)+'}'
ALLB={**BLOCK,**RARE}
def rpairs(cont=tuple(CONT),names=tuple(RARE),names2=None,H='',both=False):
    """rare first blocks before every block, or every block before the rare ones (both)"""
    r=[]
    for c in cont:
        for n in (names if not both else tuple(ALLB)):
            if c in('fn','dd') and n in('fnb','fn','alert') or c=='sub' and n=='fnb': continue
            ms=[b.replace('{H}','') for m,b in (ALLB if not both else RARE).items() if (names2 is None or m in names2) and not(c in('fn','sub') and m in('fn','fnb')) and not(n=='ref' and m=='type7')]
            r.append(CONT[c](ALLB[n].replace('{H}',H)+SEP+alts(ms))+'\n')
    return r
def mpairs(cont=tuple(CONT),names=None,names2=None,H='',skip=lambda c,n,m:False):
    """every first block in every container, followed by a symbolic choice of separator and second block"""
    r=[]
    for c in cont:
        for n,a in BLOCK.items():
            if names is not None and n not in names: continue
            ms=[b.replace('{H}','') for m,b in BLOCK.items() if (names2 is None or m in names2) and not (c=='fn' and 'fn' in (n,m)) and not (c=='sub' and m=='fn') and not skip(c,n,m)]
            if ms and not (c=='dd' and n=='alert'): r.append(CONT[c](a.replace('{H}',H)+SEP+alts(ms))+'\n')
    return r
def minl(ctx=tuple(CTX),names=None,names2=None,sep='{P}',post=' y',cont='top'):
    """every inline, a free character, a symbolic choice of the next inline, in every context"""
    r=[]
    for c in ctx:
        ms=[b for m,b in INLINE.items() if (names2 is None or m in names2) and not(c in('head','cell','link','dt') and m=='hard')]
        for n,a in INLINE.items():
            if (names is None or n in names) and not(c in('head','cell','link','dt') and n=='hard'): r.append(CONT[cont](CTX[c]('x '+a+sep+alts(ms)+post)+DEFS))
    return r
def mtrip(cont=('top',),names=None,names2=None,names3=None,H='',sep=SEP,skip=('fn','alert')):
    """three blocks in a row; separators, second and third symbolic"""
    r=[]
    for c in cont:
        for n,a in BLOCK.items():
            if names is not None and n not in names: continue
            f=lambda ns: alts([b.replace('{H}','') for m,b in BLOCK.items() if (ns is None or m in ns) and not (c in('fn','sub') and m=='fn')])
            if c=='fn' and n=='fn' or c=='dd' and n=='alert': continue
            r.append(CONT[c](a.replace('{H}',H)+sep+f(names2)+sep+f(names3))+'\n')
    return r
def tinl(ctx=('para',),names=None,names2=None,names3=None,sep='{P}',sep2='{P}',post=' y'):
    r=[]
    for c in ctx:
        ok=lambda n: not(c in('head','cell','link','dt') and n=='hard')
        f=lambda ns: alts([b for m,b in INLINE.items() if (ns is None or m in ns) and ok(m)])
        for n,a in INLINE.items():
            if (names is None or n in names) and ok(n): r.append(CTX[c]('x '+a+sep+f(names2)+sep2+f(names3)+post)+DEFS)
    return r
# inlines that span lines
MULTI={'code':'`b\nc`','code2':'``b`\nc``','em':'*b\nc*','strong':'**b\nc**','del':'~~b\nc~~','link':'[b\nc](d)','linkt':'[b](d "e\nf")','linkn':'[b](d\n"e")','ref':'[b\nc][r]','short':'[r\ns]','coll':'[r\ns][]','reflab':'[b][r\ns]','img':'![b\nc](d)','imgr':'![b\nc][r]','html':'<i b="c\nd">','comment':'<!-- b\nc -->','ext':'[b\nc](https://e.org)','dq':'"b\nc"','soft':'b\nc','hard':'b\\\nc','badge':'[![b\nc](d)](e)','nest':'*b **c\nd** e*','linkem':'[*b\nc*](d)','linkcode':'[`b\nc`](d)'}
MDEFS='\n\n[r]: d\n[r s]: e\n'
def multi(cont=tuple(CONT),names=None,names2=None,sep='{P}',pre_='x ',post=' y'):
    """inlines that span lines, a free character, a symbolic choice of another one, in every container"""
    ms=alts([b for m,b in MULTI.items() if names2 is None or m in names2])
    return [CONT[c](pre_+a+sep+ms+post)+MDEFS for c in cont for n,a in MULTI.items() if names is None or n in names]
# paragraphs to wrap, in every container
LONG={'p':'aa bb{H}cc {G}dd eeee ff','two':'aaa bb\ncc{H}dd {G}ee\nff','dash':'aaa bb-\ncc{H}-\ndd {G}ee','marks':'aa bb {H} cc {G} dd 1. ee - ff','hard':'aa bb{H}cc\\\ndd ee{G}ff gg','it':'- aa bb{H}cc dd\n  ee {G} ff gg\n- hh ii','sec':'aa bb\n\ncc{H}dd ee {G} ff gg','long':'aaaaaaaaaaaa{H}bb {G}cc\ndd\nee ff gg','lh':'aaaa bbbb cccc-\ndd{H}ee\nff gg{G}hh','url':'aa https://e.org/bb{H}cc dd{G} ee'}
def wrapped(cont=tuple(CONT),names=None,H='{P}',G='{P}'):
    return [CONT[c](t.replace('{H}',H).replace('{G}',G))+'\n' for c in cont for n,t in LONG.items() if names is None or n in names]
