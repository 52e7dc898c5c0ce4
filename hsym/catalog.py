"""The symbolic templates of every property.

A template is a document with holes: {A} any printable ASCII character or newline, {P} punctuation,
space, newline or a letter/digit, {T} any printable ASCII character, {D} digit, {L}/{U}/{LU} letters,
{M} inline markup, {W}/{E} 3-/2-byte characters, {=xyz=} one of the characters given, {a|b} one of the
alternatives.  Options are `key=value` (see harness/src/spec.rs); `lw=8~40` is a symbolic integer,
`sc=?` a symbolic flag."""
from eng import Tpl, AL, CACHE
import os
from matrix import mpairs,minl,mtrip,tinl,rpairs,multi,wrapped,CONT,BLOCK,INLINE,CTX,RARE
ASSUMPTIONS=['inputs outside the templates are not covered','external code formatters are not run','SipHash, Regex::new memo, memchr and panic entry points are replaced by the models in hsym/models.txt']
def functions():
    try: return sorted(l.strip() for l in open(CACHE+'/prog/functions.txt'))[:400]
    except OSError: return []
def bounds(tpls):
    """The templates, grouped by their options; at most some 400 kB of them (the rest is in catalog.py)"""
    g={}; size=0; left=0
    for t in tpls:
        size+=len(t.doc)+20
        if size>400000: left+=1; continue
        g.setdefault((t.opts,tuple(t.args)),[]).append(t.doc)
    return {'templates':[{'options':o,'arguments':list(a),'documents':d} for (o,a),d in g.items()],'templates_not_listed_here':left}
def templates(pid,tier):
    q,t=CAT[pid]
    return q() if tier=='quick' else q()+t()
def T(*docs,opts='',args=()): return [Tpl(d,opts,args=args) for d in docs]
CAT={}
def cat(pid,quick,thorough=lambda:[]): CAT[pid]=(quick,thorough)

# shapes every structural property shares: one block of each kind with free characters
BLOCKS=['- a{A}\n- {A}b\n','1. a\n{A}{A}b','> a\n{A}{A}b','# A{P}{P} b\n','a{A}\n{A}b\n','~~~ a{A}\n{A}\n~~~\n','| a{A} | {A} |\n|---|:-:|\n| b | c |\n','a\n: b{A}{A}c\n','<div>{A}\n{A}\n\na\n','a[^1]{A}\n\n[^1]: {A}b\n','[a{A}](b{A})\n']
cat('C01',lambda:
    T('{A}{A}{A}','{W}{P}{W}{A}\n','{E}{A}{E}',opts='')
   +T('{A}{W}{A}a b\n','{A}{E}{W} {W}c {A}\n',opts='lw=8~12')
   +T('# {A}{W}{A}\n',opts='sc=1')
   +T(' *  {W}{A}\n{A}b {W}c','> - {W}{A}{W}\n',opts='lw=8~9')
   +T('| {W}{A} | {A} |\n|-|:-:|\n| {E} |\n','[{A}{W}]({A}{W})','[{W}{P}]: {P}{W}\n\n[{W}]','{W}[^{A}]\n\n[^{A}]: {W}\n','{W}{A}\n: {A}{W}\n','`{A}{W}{A}`','<{A}{W}{A}>',"'{W}{A}{W}\"{A}",'<!-- hongdown-{disable|enable|disable-file|disable-next-line|disable-next-section|proper-nouns: {A}} -->{A}\n{W}{A}\n'),
 lambda:
    T('{A}{A}{A}{A}','{P}{P}{P}{P}{P}','{W}{P}{W}{P}{W}{P}\n')
   +T('{A}{W}{A} {A}{E} {W}{A}\n',opts='lw=8~40')
   +T('> > {A}{W}\n> {A} {W}\n{A}{W}','- {A}\n  - {W}{A}\n    - {A}{W}\n',opts='lw=8~10;iw=1~6;ts=0~3;ls=0~3')
   +T('# {A}{W}{A}{E} {A}\n',opts='sc=1')
   +T('{P}{A}{P}\n{A}{P}{A}\n'))
S3=['a{A}{A}{A}b\n','*a{P}{P}*{P}b\n','a{M}{M}{M}b{M}\n','[a{P}{P}](b)\n','- a{A}\n- {A}{A}\n','> a\n{A}{A}{A}b','1. a\n{A}{A}{A}b',"a '{P}{P}{P} w\n",'# A{P}{P}{P} b\n','~~~{A}\na\n{A}{A}\n~~~\nb\n','| c{A} | {A} |\n|--|--|\n| {P} | d |\n','a\n{P}{P}\nb\n','- a\n\n{=\n -*1.#>=} {P}b\n','a\n: {A}{A}b\n','<{A}{A}{A}\n\na\n']
cat('C02',lambda:T(*S3)+T('a bb {A} ccc dd{A} ee\n','- aa bb {A} cc{A} dd\n',opts='lw=8~11'),
 lambda:T('{A}{A}{A}{A}\n','a{A}{A}{A}{A}b\n','> - a\n> {A}{A}{A}b','- - a\n{A}{A}{A}b\n','x[a]{P}{P}{P}\n\n[a]: b\n','# a{A}{A}{A}\n','a {P}{P}{P}{P} b\n')+T('aa {A}{A} bb {A}cc dd{A} ee\n',opts='lw=8~20'))
cat('C03',lambda:T(*S3)+T('{A}{A}{A}\n'),
 lambda:T('{A}{A}{A}{A}\n','a{A}{A}{A}{A}b\n','> - a\n> {A}{A}{A}b','- - a\n{A}{A}{A}b\n','- a\n\n  {A}{A}{A}b\n','1. a\n   {A}{A}{A}b\n','x[a]{P}{P}{P}\n\n[a]: b\n','{P}{P}{P}\n{P}\n','a\n{A}{A}{A}\nb\n'))
def region(pre,body,suf,opre,osuf,alt=None,opts=''):
    return Tpl(pre+body+suf,opts,args=(pre,suf,opre,osuf)+((alt,) if alt is not None else ()))
def c04():
    D='<!-- hongdown-disable -->'; E='<!-- hongdown-enable -->'; N='<!-- hongdown-disable-next-line -->'; S='<!-- hongdown-disable-next-section -->'; F='<!-- hongdown-disable-file -->'
    r=[]
    for body in ['x{A}{A}{A}y','- x{A}\n{A}{A}y','x  *y*{A}{A}z','|x{A}|\n|-|\n|{A}y|','x {=\n\'"`=}{=\n.-=}{A}y']:
        r.append(region(f'* A\n\n{D}\n\n',body,f'\n\n{E}\n\n+ c\n',f' -  A\n\n{D}\n\n',f'\n\n{E}\n\n -  c\n',f'\n\n{E}\n\n+ c\n'))
    for body in ['x{T}{T}{T}y','- x {T}{T}y\n  {T}z','#  x{T}{T}y','x\n: y {T}z']:
        r.append(region(f'* A\n\n{N}\n',body,'\n\n+ c\n',f' -  A\n\n{N}\n\n','\n\n -  c\n','\n\n *  c\n'))
    for body in ['x{A}{A}y','x{T}{T}{T}y','x\n\n- {T}y\n\n+ {T}z']:
        r.append(region(f'* A\n\n{S}\n\n',body,'\n\nNext\n----\n\n+ c\n',f' -  A\n\n{S}\n\n','\n\n\nNext\n----\n\n -  c\n','\n\nNext\n----\n\n+ c\n'))
    for body in ['x{A}{A}{A}y','{A}{A}{A}']:
        r.append(region(f'{F}\n\n',body,'\n',f'{F}\n\n','\n'))
    return r
cat('C04',c04)
FO='fc=~||`;fl=3~6;sf=?;dl=||text'
cat('C05',lambda:T('~~~ a\nb{A}{A}\n~~~\n','```\n{A}{A}\n```\n','~~~{P}{P}a\nb\n~~~\n','    a{A}{A}\nb\n')+T('~~~~~ a{=~`=}\n{=~`=}{=~`=}{=~`=}{=~`=}{P}\n~~~~~\n','- a\n\n  ~~~~\n  {=~`=}{=~`=}{=~`=}\n  {A}b\n  ~~~~\n','> ~~~~ {=~` a=}\n> {=~`=}{=~`=}{=~` =}{A}\n> ~~~~\n',' ~~~~{A}\n{=~` =}{=~` =}{=~` =}b\n ~~~~\n',opts=FO),
 lambda:T('~~~{A}{A}\n{A}{A}\n~~~\nb\n','- ~~~{A}\n{A}{A}  b\n  ~~~\n','a[^1]\n\n[^1]: b\n\n    ~~~{A}\n    {A}{A}\n    ~~~\n')+T('~~~~~~~{P}\n{=~`=}{=~`=}{=~`=}{=~`=}{=~`=}{=~`=}\n~~~~~~~\n',opts=FO))
PO='dq=?;sq=?;ap=?;el=?;em=--||off||---;nd=off||--'.replace('em=','md=')
cat('C06',lambda:T('a{=\'".- =}{=\'".- b=}{=\'".- =}{=\'".- b=}c\n','"{P}{P}a\'{P}b\n')+T("a{='\".-=}{='\".-=}{='\".- =}b\n","{='\".-=}a{='\".-=} b{='\".-=}\n",'a "b{P}" c...\n','a{P}...--{P}e\n',opts=PO)+T('# a{=\'".-=}{=\'".-=}{=\'".- =}b\n','- {=\'".-=}{=\'".-=}{=\'".- =}b\n','| a{=\'".-=}{=\'".-=} | `{=\'".-=}` |\n|---|---|\n','[a{=\'".-=}{=\'".-=}](b{=\'"-=}) c\n','`{=\'".-=}{=\'".-=}`{=\'".-=} *{=\'".-=}b*\n')+T('a{A}"b{A}\' c{A}\n'),
 lambda:T("a{='\".- =}{='\".- =}{='\".- =}{='\".- =}{='\".- =}b\n",opts=PO)+T("a {='\"=}{P}b{P}{='\"=} {='\"=}c\n",opts='sq=?;ap=?')+T('{W}{=\'".-=}{E}{=\'".-=}{=\'".-=}{W}\n'))
SC='sc=1;pn=GitHub,Foo Bar;cn=Python,Bazel'
cat('C07',lambda:T('# {LU}{A}{A}{LU} b\n','## The {A}{LU}{A} Zq\n','# Zq {U}{LU}{LU} Zq\n','# A `{A}{A}` "{A}b\n')+T('# A {g|G}it{h|H}ub{A}{A} zq\n','# {P|p}ython{A}{B|b}azel{A} Zq\n','# A {foo|Foo|FOO}{=\n -=}{bar|Bar}{A} b\n',"# Zq'{LU} {A}Q{LU}\n",'# {P|p}ython: {P|p}ython{A}\n',opts=SC)+T('# Zq{P}{P}Zx{P} Zy\n','# A-{LU}{LU} {=(["\'=}Zq b\n','# {E}{LU} Zq\n',opts='sc=1'),
 lambda:T('# {A}{A}{A}{A}\n','# Zq {A}{A}{A}Zw\n','# {LU}{LU}{LU}{LU} {LU}\n',opts='sc=1'))
cat('C08',lambda:T('aa bb{A}cc dddd {A}ee ffff\n','aaa{P}bbb {P}ccc{=, `=} dd e\n','> aa {A}bbb{A} cc dd\n','aaa {W}{W}{P} {W}b cc\n','- aa bb\n\n  aaa {A}bb{P} cc dd\n','a\n: bb {A}cc{A} dd ee\n','a[^1]\n\n[^1]: aa bb{P} cc{P} dd ee\n','- aaa {A}bb{A} cc dd\n',opts='lw=8~20')+T('a `b{A}c` d{A} e [f g](h) i\n','*aa bb*{A}cc **dd{A}ee** ff\n','aa bb\\\ncc dd{A}ee{A} ff\n',opts='lw=8~16')+T('aaaa bbbb cccc dddd eeee ffff gggg{A}hhhh iiii jjjj kkkk llll mmmm nnnn\n','> - aaaa bbbb\n>\n>   cccc dddd eeee ffff gggg{A}hhhh iiii jjjj kkkk llll mmmm nnnn oooo\n',opts='lw=8~90'),
 lambda:T('aa{P}{P} bbb {A}cc{P}dd e\n','{W}{P}{W}{P} {W}{W} {E}{P} aa\n','> - aa {A}bb{P} cc dd ee\n','- - aa\n\n    aa {A}bb{P} cc\n','aa bb{A}cc {P}dddd {P}ee ffff\n',opts='lw=8~30'))
cat('C09',lambda:T('aa{A}bb {A}cc {P}d\n','aa{P}{P}{P}bb cc\n','- aa bb{A}\n{A}cc dd\n','> aa{A}bb\n> {A}cc dd\n','aa  \nbb{A}{A} cc\n','aa\\\nbb{A}{A} cc\n','*aa{A}bb* {A}`cc dd`\n','aa [bb{A}cc](d){A}ee ff\n',opts='lw=8~12'),
 lambda:T('aa{A}{A}bb {A}cc{A}dd\n','aa {P}{P}{P}{P}bb cc\n','a {1|2|10|-|+|#|>|=}{A}{A} b {A}\n',opts='lw=8~16'))
cat('C10',lambda:T('a\\{A}{A}\\{A}b\n','\\{A}{A}{A}b\n','{P}{P}\\{P}a\n','a{M}\\{M}{M}b{M}\n','# \\{A}{A}\\{A}\n','- \\{A}{A}b\n','&{A}{A};\n','a&{amp|lt|#42|#x5b|quot|nbsp};{A}{A}\n','a\n\\{A}{A}\n'),
 lambda:T('\\{A}\\{A}{A}{A}b\n','a{M}{M}\\{M}{M}{M}b\n','{&lt;|&#42;|&amp;|&lsqb;}{A}{A}{&gt;|&#95;}\n'))
HO='s1=?;s2=?'
cat('C11',lambda:T('# {A}{A}{A}b\n','## a{A}{A}\n','a{A}{A}\n=={A}\n','a{A}b\n--{A}\n','#{A}{A} a #{A}\n','# {W}{A}{E}\n','{W}{E}{A}\n---\n')+T('{#|##|###|####|#####|######} a{A}{A}\n','a{A}\n{---|===}\n','- # a{A}{A}\n','> a{A}\n> {---|===}\n','# {A}{A}\n',opts=HO),
 lambda:T('# {A}{A}{A}{A}\n','a{A}\nb{A}\n{---|===}\n','# {W}{A}{W}{A}{E}\n',opts=HO))
LO='um=-||*||+;ls=0~3;ts=0~3;iw=4~6'
OO='om=.||);en=.||);ow=1~6'
cat('C12',lambda:T('{-|+|*} a\n{-|+|*} b\n\n  c\n{-|*}  - d\n','- a\n  - b\n    - c\n- d\n','- a\n\n- b\n\n      c\n','- [{ |x|X}] a\n- {A}b\n',opts=LO)+T('{D}{=.)=} a\n{D}{=.)=} b\n','{D}{D}. a\n   {D}) b\n','1. a\n   1. b\n      1. c\n2. d\n','9. a\n10. b\n\n    c\n',opts=OO)+T('- a{A}\n  {-|1.} {A}b\n','- a\n{A}{A}- b\n','{1|9|10|99|100|999|123456789}. a\n   {- b|  - b|     - b}{A}\n','- a\n\n\n- b\n{A}\n- c\n','- a\n1. b\n{-|+} {A}c\n'),
 lambda:T('- a\n  - b{A}\n\n    c\n- d\n','1. a\n   - b\n\n     c{A}\n','- {A}{A}\n  - {A}\n',opts='um=-||*||+;ls=0~3;ts=0~3;iw=4~8;ow=1~8')+T('- a{A}{A}\n{A}- b{A}\n','{D}{D}{=.)=} a\n\n   {A}{A}b\n'))
cat('C13',lambda:T('| a{A} | {A} |\n|---|---|\n| b | {A} |\n','a | b\n{=-:=}-{=-:=}|{=-:=}-{=-:|=}\nc | d{A}\n','| {W}{A} | b |\n|:-:|--:|\n| {A}{E} | dd |\n','| a | b |\n|---|---|\n| c{=|\\` =}{=|\\` =}{A} | d |\n','|a|\n|-|\n|{A}{A}|\n','- | a | b |\n  |--|--|\n  | c{A} | {A} |\n','> | a |\n> |-|\n> | {A}{A} |\n'),
 lambda:T('| a{A}{A} | {A}{A} |\n|---|---|\n| b |\n','|{A}|{A}|\n|-|-|\n|{A}|{A}|\n','| `{A}{A}{A}` | b |\n|---|---|\n'))
cat('C14',lambda:T('[a{P}{P}](b)\n','[a](b{P}{P})\n','[a](b "c{P}{P}")\n','[a](<b{A}{A}>)\n','![a{P}{P}](b{P})\n','[a{P}][b]{P}c\n\n[b]: d\n','[a{P}]\n\n[a{P}]: b\n','[{LU}{LU}][]{P}\n\n[{LU}{LU}]: b\n',"[a][b] [c]{P}{P}\n\n[b]: d 'e{P}'\n[c]: f\n",'x [{P}{P}](https://e.org) c\n','[a](https://e.org/{P}) [{b|a}](https://e.org/{P})\n','<https://e.org/{A}{A}> c\n','[a](https://e.org/1) b\n\n# c\n\n[a](https://e.org/{12}) [a](https://e.org/{D})\n','[a][b]\n\n[b]: <{P}{P}>\n'),
 lambda:T('[a{P}{P}{P}](https://e.org) c\n','[a](b{A}{A}{A})\n','[a {A}b][c{A}]\n\n[c{A}]: d\n','[[a{P}](b)]{P}(c)\n','[![a{P}](b)](c{P})\n'))
cat('C15',lambda:T('a[^1]{A}\n\n[^1]: b{A}{A}\n','a[^{A}{A}]\n\n[^{A}{A}]: b\n','a[^1] b[^2]\n\n[^{=13=}]: c\n\n[^{=24=}]: d\n','[^2]: c\n\na[^{=12=}]{A}b[^2]\n\n[^1]: d\n','a[^1]\n\n[^1]: b\n\n    {A}{A}c\n','a[^1]\n\n# b\n\nc[^{=12=}]\n\n[^2]: d\n[^1]: e\n\n# f\n','> a[^1]{A}\n\n[^1]: b\n\nc\n','- a[^1]\n{A}{A}\n[^1]: b\n','a[^1]\n\n[^1]: - b{A}\n{A}c\n'),
 lambda:T('a[^1]{A}{A}\n\n[^1]: {A}b\n{A}{A}c\n','a[^{P}{P}{P}]\n\n[^{P}{P}{P}]: b\n','[^1]: a[^2]\n\nb[^{D}]\n\n[^2]: c[^{D}]\n'))
cat('C16',lambda:T('Alpha {A}{A} omega\n','Alpha{A}{A}','{A}{A}\n','# Alpha{A}{A}',' -  Alpha{A}{A}','Alpha\n{A}{A}\n','~~~~\n{A}{A}','> Alpha{A}\n{A}','a[^1]\n\n[^1]: b{A}{A}','[a]\n\n[a]: b{A}{A}','| a |\n|-|\n{A}{A}','<div>{A}{A}','a\n: b{A}{A}','<!-- hongdown-disable -->\na{A}{A}','<!-- hongdown-disable-next-{line|section} -->\na{A}{A}','---\na\n---{A}{A}','*[a]: b{A}{A}','    a{A}{A}','[a](https://e.org){A}{A}'),
 lambda:T('{A}{A}{A}','{A}{A}{A}\n','~~~\n{A}{A}{A}','- a\n{A}{A}{A}'))
def c17():
    r=T('{=*-_ =}{=*-_ =}{=*-_ =}{=*-_ =}','{T}{=*-_=}{=*-_ =}{T}','','{=-*=}{=-*=}',args=('style',))+T('{T}{T}','','{W}','a{E}b','{A}',args=('dash',))+T('{D}','{0|1|2|3|4|7|8|9|10|11|39|40|41|79|80|81|100|255|256|257|259|260|1000|65535|65536|65539|2147483648|4294967295|4294967296|4294967299|9223372036854775808|18446744073709551615}',args=('num',))+T("{=-~=}{=-~=},{=-~=}{=-~=}",args=('pair',))
    for f in ['line_width','unordered_list.leading_spaces','unordered_list.trailing_spaces','unordered_list.indent_width','ordered_list.indent_width','code_block.min_fence_length','thematic_break.leading_spaces']: r+=T('{1|2|3|4|5|6|7|8|9|0|10|39|80|-1|true}',args=('toml',f))
    for f in ['no_inherit','git_aware','heading.setext_h1','heading.setext_h2','heading.sentence_case','code_block.space_after_fence','punctuation.curly_double_quotes','punctuation.curly_single_quotes','punctuation.curly_apostrophes','punctuation.ellipsis']: r+=T("{true|false|1}",args=('toml',f))
    for f in ['unordered_list.unordered_marker','ordered_list.odd_level_marker','ordered_list.even_level_marker','code_block.fence_char']: r+=T("'{=-*+.)~`a =}'",args=('toml',f))
    r+=T("'{start|end|star|Start}'",args=('toml','ordered_list.pad'))+T("'{=a -=}{=b~=}'",args=('toml','code_block.default_language'))
    for f in ['thematic_break.style']: r+=T("'{=-*_ =}{=-*_=}{=-*_ =}-'",args=('toml',f))
    for f in ['punctuation.en_dash','punctuation.em_dash']: r+=T("'{=- a=}{=- =}'","{true|false|1}","''",args=('toml',f))
    return r
cat('C17',c17,lambda:T('{=*-_ =}{=*-_ =}{=*-_ =}{=*-_ =}{=*-_ =}{=*-_ =}','{A}{A}{A}{A}',args=('style',))+T('{A}{A}{A}',args=('dash',))+T('{D}{D}','{2|8|9|40|65536}{D}',args=('num',)))
def c18(n): return [Tpl('x','',args=('merge',str(n),str(g))) for g in range(6)]
cat('C18',lambda:c18(1)+c18(2)+T("{line_width = 9|git_aware = false|include = ['a']|exclude = ['b']|heading.setext_h1 = false|unordered_list.indent_width = 2|ordered_list.pad = 'end'|punctuation.ellipsis = false|code_block.fence_char = '`'|thematic_break.leading_spaces = 0}\n%{line_width = 10|git_aware = true|include = ['c']|exclude = []|heading.setext_h2 = false|unordered_list.leading_spaces = 2|ordered_list.indent_width = 2|punctuation.curly_apostrophes = true|code_block.min_fence_length = 3|thematic_break.style = '***'}\n",args=('partial',)),lambda:c18(3))
cat('C22',lambda:T(*BLOCKS)+T('a [b{A}]{A}c\n','| a{A} |\n|-|\n| b{A} | c |\n',"{A}{A}{A}\n"),lambda:T(*S3))
cat('C23',lambda:T('a [{=abcA=}{=abc=}] b{P}\n\n[{=abc=}a]: c\n','a [b][{=abAB=}{=abAB=}] c\n\n[{=ab=}{=bB=}]: d\n','a [{L}b][] {P}c\n\n[d]: e\n','[{=abA=}{=abB=}]\n\n*[{=abA=}b]: c\n','a{P}[b]{P} c\n','a\nb [c{L}]\n\nd [{e|f}]\n\n[e]: g\n','`[{L}]` [{L}]\n\n[b]: c\n','a [^{L}] [!{L}]\n','- [{L}b] [x]\n\n> [{L}c]\n','[{L}b]\n\nx [d]{P}\n')+T('<!-- hongdown-disable -->\n\n[q]\n\n<!-- hongdown-enable -->\n\n[{=abcx=}]\n\n[a]: b\n','<!-- hongdown-disable-next-line -->\n[q]\n\n[{=abcx=}]\n\n[a]: b\n','[{=abcx=}]\n\n<!-- hongdown-disable-file -->\n[q]\n\n[a]: b\n',args=('q',))+T('| a | b |\n|---|---|\n| c {=|\\ =} d |{A}\n','a | b\n-|-\nc{A}d{A}e\n','| a |\n|-|\n| b{A}{A}\n','> a | b\n> -|-\n> c{P} d{P}e\n','- | a | b |\n  |-|-|\n  |{P}c|{P}d|\n','a | b\n-|-\nc{=|\\` =}{=|\\` =}{=|\\` =}{=|\\` =}d\n',args=('table',)),
 lambda:T('a[{A}{A}]b\n','a [b]{P}{P}c\n')+T('| a | b |\n|---|---|\n{A}c{A}d{A}\n',args=('table',)))
def verb(pre,body,suf,opts=''):
    # only the lengths of the arguments count
    import re
    n=lambda t: re.sub(r'\{[A-Z]+\}','x',t)
    return Tpl(pre+body+suf,opts,args=(n(pre),n(suf)))
cat('C24',lambda:[verb('---\n','a: {A}{T}b','\n---\n\na\n'),verb('','<div>{T}\n{A}{T}\n</div>','\n\na\n'),verb('a ','<b {T}{T}>','c\n') ,verb('a ','&{amp|lt|copy|#42|#x2014|nbsp};','{A}c\n'),verb('','<!-- {T}{T}\n{A} -->','\n\na\n'),verb('','*[a{L}]: {T}b  {T}c','\n'),verb('a\n\n','*[HTML]: Hyper {T}{T}t\n*[b]: {T}c','\n\nd HTML\n'),verb('a ','<i>','b{A}{A}</i> c\n'),verb('','<pre>\n a{T}{T}\n\n b\n</pre>','\n\na\n'),verb('','<script>\n{A}{A}\n</script>','\n\na\n'),verb('a ','<a href="{T}{T}">','b</a>\n')],
 lambda:[verb('---\n','a{A}{A}{A}b','\n---\n\na\n'),verb('','<div>\n{A}{A}{A}\n</div>','\n\na\n')])
TB='tb=***||- - -||___||_ _ _ _||*  *  *||---;tl=0~3'
cat('C25',lambda:T('a\n\n{=-*_=}{=-*_ =}{=-*_ =}{=-*_=}\n\nb\n','***\n{A}{A}\n','a\n***{=* =}\nb\n')+T('a\n\n{---|* * *|_____}\n\nb{A}\n','{---|***}\n\na\n','- ***\n- a\n','> ***\n>\n> a\n','a\n\n- b\n\n  ***\n','***\n\na\n\n***\n',opts=TB),lambda:T('{=-*_=}{=-*_ =}{=-*_ =}{=-*_ =}{=-*_=}\n{A}\n',opts=TB))
cat('C26',lambda:T('a `{P}{P}{P}` b\n','a ``{P}{P}{P}`` b\n','*a `{P}{P}`{P}*\n','[a `{P}{P}`](b)\n','| `{P}{P}` | b{P} |\n|---|---|\n','# `{P}{P}` {P}\n','- `{P}{P}`{P}\n')+T('a `b{A}c{A}` d\n','a `` b{=`c \n=}{=`c \n=} `` d\n',opts='lw=8~12'),lambda:T('a `{A}{A}{A}` b\n','``{=`a =}{=`a =}{=`a =}{=`a =}{=`a =}``\n','| `{A}{A}{A}` | b |\n|---|---|\n'))
cat('C27',lambda:T('*a{P}{P}*b{P}\n','{P}*a*{P}\n','**a{P}**{P}b\n','a{=*_=}b{=*_=}{P}{=*_=}c{=*_=}d\n','{***|**|*|_|__|___}a{P}b{***|**|*|_|__|___}{P}\n','*a **b{P}** c*{P}\n','_a{P}_{P}\n','[*a{P}*](b){P}\n',"*{='\"=}a{='\"=}*{P}\n",'| *a{P}* | **b**{P} |\n|-|-|\n','# *a{P}*{P}\n')+T('*aa bb{P}cc* **dd{P}ee**\n',opts='lw=8~12'),lambda:T('a{M}{M}b{M}{M}c\n','{=*_ a=}{=*_ a=}{=*_ a=}a{=*_ b=}{=*_ b=}{=*_ b=}\n','*a{A}{A}*{A}b\n'))
cat('C28',lambda:T('> a{A}\n>{A}{A}b\n','> a\n{A}{A}b\n','> > a{A}\n> {A}b\n','> [!{NOTE|TIP|note|X}]{A}\n> b{A}\n','> - a\n>{A}{A}b\n','> a\n\n> b{A}\n{A}\n','> # a{A}\n> {A}b\n','> ~~~\n> {A}{A}\n> ~~~\n','- > a{A}\n{A} > b\n','> a\n>\n> {1.|-|#|>} b{A}\n','> a\n{>|-|#|1.|~~~|***}{A}b\n'),lambda:T('> {A}{A}{A}\n> {A}\n','> > {A}{A}\n> > {A}\n','> [!NOTE]{A}{A}\n>{A}{A}b\n'))
cat('C29',lambda:T('a{A}\n: b{A}{A}\n','a\n: b\n{A}{A}c\n','a\n\n: b{A}\n\n  {A}c\n','a\n: b\n: c{A}\n\nd{A}\n: e\n','a\n: - b{A}\n  {A}c\n','a\n{:|~}{A}{A}b\n','a{P}\nb\n: c{P}\n','> a\n> : b{A}{A}\n','a\n: b\n\n{A}{A}\n'),lambda:T('{A}{A}\n: {A}b\n','a\n:{A}{A}{A}b\n','a\n: b\n\n  {A}{A}{A}c\n'))

# the combination matrix (matrix.py): containers x blocks x separators x blocks, inlines x inlines x contexts
LISTS=('ul','loose','nest','ol','ol)','task'); C5=('top','q','ul','ol-ul','dd')
def add(pid,quick,thorough=lambda:[]):
    q,t=CAT[pid]; CAT[pid]=(lambda:q()+quick(),lambda:t()+thorough())
H='{P}'; LW='lw=8~14'
NL=tuple(c for c in CTX if c!='link')
add('C01',lambda:T(*mpairs(),*minl()),lambda:T(*minl(),opts=LW)+T(*mpairs(H=H),opts='lw=8~9'))
for p in ('C02','C03'): add(p,lambda:T(*mpairs(H=H),*minl()),lambda:T(*minl(),opts=LW)+T(*minl(cont='ul'),opts=LW)+T(*mpairs(H='{A}')))
add('C09',lambda:T(*mpairs(H=H),*minl(),*[]),lambda:T(*minl(),opts=LW)+T(*minl(cont='q'),opts=LW))
add('C08',lambda:T(*minl(),opts=LW),lambda:T(*minl(cont='q'),opts=LW)+T(*minl(ctx=NL),opts='lw=15~30'))
add('C05',lambda:T(*mpairs(names=('fence','bfence','icode')),*mpairs(cont=C5,names2=('fence','bfence','icode')),opts=FO),lambda:T(*mpairs(names=('fence','bfence','icode'),H=H),opts=FO))
add('C06',lambda:T(*minl()),lambda:T(*minl(ctx=('para','head','cell')),opts=PO))
add('C07',lambda:T(*minl(('head',)),opts='sc=1'))
add('C10',lambda:T(*minl()),lambda:T(*minl(cont='q')))
add('C11',lambda:T(*mpairs(names2=('head','head2','head3','setext')),opts=HO)+T(*minl(('head',)),opts=HO),lambda:T(*mpairs(names=('head','head2','head3','setext'),H=H),opts=HO))
add('C12',lambda:T(*mpairs(names=LISTS,cont=C5),opts=LO+';'+OO),lambda:T(*mpairs(names=LISTS,H=H))+T(*mpairs(names=LISTS),opts=LO+';'+OO))
add('C13',lambda:T(*mpairs(names=('table',),H=H),*mpairs(names2=('table',),H=H),*minl(('cell',))))
add('C14',lambda:T(*mpairs(names=('ref',),H=H),*mpairs(names2=('ref',)),*minl()))
add('C15',lambda:T(*mpairs(names=('fn',),H=H),*mpairs(names2=('fn',)),*minl()))
add('C16',lambda:T(*mpairs()),lambda:T(*mpairs(H=H)))
add('C22',lambda:T(*mpairs(),*minl()),lambda:T(*mpairs(H=H)))
add('C25',lambda:T(*mpairs(names=('hr',)),*mpairs(names2=('hr',)),opts=TB))
add('C26',lambda:T(*mpairs(names=('icode','fence'),H=H),*minl()),lambda:T(*minl(names=('code','code2')),opts=LW))
add('C27',lambda:T(*minl()),lambda:T(*minl(names=('em','strong','del','em_')),opts=LW)+T(*minl(names2=('em','strong','del','em_'),sep='{P}{P}')))
add('C28',lambda:T(*mpairs(names=('q','alert'),H=H),*mpairs(cont=('q','q-q','alert','q-ul','ul-q')),*minl(('q',))))
add('C29',lambda:T(*mpairs(names=('dl','dll'),H=H),*mpairs(cont=('dd',)),*minl(('dt','dd'))))

# a second layer: rare blocks, three in a row, inlines over several lines, paragraphs to wrap
ALLO='um=-||*||+;ls=0~3;ts=0~3;iw=4~6;om=.||);en=.||);ow=1~6;s1=?;s2=?;fc=~||`;sf=?'
QC=('top','q','ul','ol-ul','dd','fn'); WL='lw=8~16'; SEP2='{ |\n||,|-}'; RQ=('q','q-q','alert','q-ul','ul-q')
UNREG=tuple(n for n in RARE if n not in('next','sect','reg')) # blocks that are no disabled regions
def rare(cont=tuple(CONT),H=''): return rpairs(cont=cont,H=H)+rpairs(cont=cont,both=True,names2=tuple(RARE),H=H)
for p in ('C02','C03'): add(p,lambda:T(*mtrip(cont=('top','ul')),*rare(),*multi())+T(*wrapped(cont=QC),opts=WL)+T(*tinl(sep='',sep2=SEP2)),lambda:T(*mtrip(cont=tuple(CONT)))+T(*wrapped(),opts=WL)+T(*tinl(ctx=tuple(CTX),sep='',sep2=SEP2))+T(*mpairs(),opts=ALLO))
add('C01',lambda:T(*rare(),*multi())+T(*wrapped(cont=QC),opts=WL),lambda:T(*mtrip(cont=tuple(CONT)))+T(*wrapped(),opts=WL))
for p in ('C08','C09'): add(p,lambda:T(*wrapped(cont=QC),opts=WL)+T(*multi(cont=QC),opts=LW),lambda:T(*wrapped(),opts='lw=8~30')+T(*multi(),opts=LW))
add('C05',lambda:T(*mpairs(names=('fence','bfence','icode'),H=H)),lambda:T(*mpairs(names=('fence','bfence','icode'),H='{A}'),*mtrip(cont=('top','q','ul','dd'),names2=('fence','bfence','icode'))))
for p in ('C06','C10','C26'): add(p,lambda:T(*multi(cont=QC)),lambda:T(*tinl(ctx=tuple(CTX),sep='',sep2=SEP2)))
add('C27',lambda:T(*multi(cont=QC),*tinl(names=('em','strong','em_','del'),sep='',sep2=SEP2)),lambda:T(*tinl(ctx=tuple(CTX),sep='',sep2=SEP2)))
add('C12',lambda:T(*rpairs(cont=('top','q','ul','dd'),names=UNREG)),lambda:T(*rpairs(names=UNREG),*rpairs(both=True,names2=UNREG),*mtrip(cont=('top','q','ul','ol'),names=LISTS))+T(*mpairs(names=LISTS),opts=ALLO))
add('C28',lambda:T(*rpairs(cont=RQ),*multi(cont=RQ),*mtrip(cont=('q',)))+T(*wrapped(cont=RQ),opts=WL),lambda:T(*mtrip(cont=RQ),*rare(cont=RQ)))
add('C29',lambda:T(*rpairs(cont=('dd',)),*multi(cont=('dd',)),*mtrip(cont=('dd',)),*mtrip(names=('dl','dll')))+T(*wrapped(cont=('dd',)),opts=WL))
LK=('link','linkt','linkn','ref','short','coll','reflab','img','imgr','badge','linkem','linkcode','ext')
add('C14',lambda:T(*multi(cont=QC,names=LK))+T(*wrapped(cont=('top','ul'),names=('url',)),opts=WL),lambda:T(*multi(names2=LK),*tinl(names2=('link','linkt','ref','short','img','auto','bare'),sep='',sep2=SEP2)))
add('C15',lambda:T(*mtrip(cont=('top','ul','q'),names=('fn',)),*rpairs(cont=('fn',))))
add('C16',lambda:T(*rpairs(cont=QC),*wrapped(cont=('top','q','ul'))),lambda:T(*mtrip(cont=('top','q','ul','dd','fn'))))
add('C22',lambda:T(*rare(cont=QC),*multi(cont=QC)),lambda:T(*mtrip(cont=('top','q','ul','dd','fn'))))
add('C25',lambda:T(*mtrip(names=('hr',)),*mtrip(names2=('hr',)),*rpairs(names=UNREG,names2=('hr',))))
add('C11',lambda:T(*mtrip(names2=('head','head2','setext')),*rpairs(names=UNREG,names2=('head','head2','setext'))),lambda:T(*rpairs(names=UNREG),*rpairs(both=True,names2=UNREG),*mtrip(cont=('q','ul','dd'),names2=('head','head2','setext'))))
add('C13',lambda:T(*mtrip(names2=('table',)),*rpairs(names=('tbl1',))))
add('C14',lambda:T('a [{#|}{=12=}] [{#|}{=12=}] [{12|#1|b|2}]\n\n[#1]: d\n[1]: e\n[2]: f\n[b]: g\n[12]: h\n[#2]: i\n','a [{1|2|b}] [{10|9|b}]\n\n## c\n\nd [{1|2|b}] [{10|9|#3}]\n\n[1]: e\n[b]: f\n[9]: g\n[10]: h\n[2]: i\n[#3]: j\n','a [{x|X}{y|Y}] [{x|X}{y|Y}][] [c][{x|X}{y|Y}]\n\n[{x|X}y]: d\n','a [{1|b}](https://e.org/{1|2}) [{1|b}](https://e.org/{1|2} "c")\n\n[1]: https://e.org/1\n'))
SC1='sc=1'
add('C07',lambda:T("# {A|a} {I|i}'{d|m|ll|ve}{P} b\n",'# Z {I|i}{P}{B|b}\n','<!-- hongdown-proper-nouns: {Foo Bar|foo|FOO, Baz} -->\n\n# A {foo|Foo|FOO} {b|B}a{r|z}{P}\n','<!-- hongdown-common-nouns: {Foo|GitHub|Python, Baz} -->\n\n# A {foo|Foo|GitHub} {Python|Baz}{P}\n','# {A|a}{.|:|!|?|…} {B|b}{. |: |.}{C|c}\n','# A: {"|“|\'|(|*|`}{B|b}c{P}\n','# A Zq{P} {A}PI{P} Zy\n','# Zx Zqx{P} Zy\n','# Zq {API|Zqw|NOde}{, |! |? |: |; |-|/|. |\' }{Zx|API} Zy\n','# A {U.S.|e.g.|i.e.|Etc.|v2|V2.0|iOS|NodeJS|RFC|API\'s|APIs} {B|b}{P}\n',opts=SC1))
# a third layer: code the others did not reach
HM=('# {=aZ=}q <b {=a =}=\'{="\'>=}Zx"\'> {P} Zy\n', '# Zq <b a="{=Z\'=}"{P} Zx\n', '# Zq <!-- {=Z-"=}x --> {Z|"Zy" }\n', '# Zq [Zx](<{=Z )\\=}{P}> "{=Z)\\=}") Zy\n', '# Zq [Zx]({=Z(\\=}a{=Z)\\=}) Zy\n', '# Zq [Zx](/a \'{=Z)\\"=}\') Zy\n', '# Zq [Zx {=a`*_=}]{[a]|[]|(b)} Zy\n\n[zx a]: /b\n[a]: /c\n', '# Zq [Zx]{[Zy]| [Zy]}{P} Zz\n\n[zy]: {/b|http://b}\n', '# Zq [Zx](http://a){[b]|(b)|{P}} Zy\n', '# Zq [![Zx](/a)](/b){P} Zy\n', '# Zq [![Zx][a]][b]{P} Zy\n\n[a]: /c\n[b]: {/d|http://d}\n', '# Zq `{=Z`=}{=Z"=}`{P} "Zx\n', '# "Zq `{=Z"=}` {=Z\'=}x{=\' =}y" Zz\n', "# Zq foo bar{'s|’s|'|s| s|,|.} Foo {B|b}ar\n", '# {\'|"|a \'}{8|9}0{s|S|x}{=\' s=} Zq\n', '# Zq Zx[^{A|z}] Zy\n\n[^a]: b\n[^z]: c\n', '# Zq &{amp|Amp|quot|#90|#x5A};{P} Zx\n', '# \\{P}Zq \\{P}Zx\n')
PM=('a <b {=a =}=\'{="\'>=}c"\'> {P} d\n', 'a <b {a|c=d} {=e \n=}={ ||\n}{="\'=}{="\'f=}{="\'g>=}{="\'>=}> h\n', '<b{P}c="{=\'"d=}{P}> e\n')
AM=("a{)|]|\\}|1|b}'{s|S|t}{P}b\n", "{=a1 =}'{=s9t=}{=s -=}b\n", "'{8|9}0{s|S|x}{=' s=} {'|a'}b\n", 'a {-|--|---} b{P}\n', '{-|--|---}{ |}a{ |}{-|--|---}\n', "*a*'{s|S|t}{P} [b](c)'{s|x}{P}\n", "{a|1|é} '{a|1|é|'}{P}' b'\n", '{\'|"}{\'|"}{=, )a=}a{\'|"}{\'|"}{=, )a=}{\'|"}\n', '\'t{w|\'}as {\'|"}b{\'|"} {\'|"}{P}\n')
for p in ('C01','C02','C06','C07'): add(p,lambda:T(*HM,opts='sc=1;pn=Foo Bar'),lambda:[])
for p in ('C02','C03'): add(p,lambda:T(*PM,opts='dq=?;sq=?;ap=?;lw=8||80'),lambda:[])
add('C03',lambda:T(*HM),lambda:T(*AM,opts=PO))
add('C06',lambda:T(*AM,opts=PO.replace('md=--||off||---','md=--||off||---||-').replace('nd=off||--','nd=off||--||-')),lambda:[])
add('C06',lambda:T('# {=\'"=}Zq{=\'"=} a{=\'"=}b {=\'" =}c\n','# a "Zq{P}b" {=\'"=}Zw\n','## {=\'"(=}{=\'"a=}b{=\'"=}{=\'"s =}{=\'"=} c\n',opts='sc=1;dq=?;sq=?;ap=?'),lambda:[])
