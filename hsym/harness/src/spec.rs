//! Decodes a job: `prop \x1e options \x1e alphabets \x1e document`.
//! document := bytes | \x01 <alphabet index + 32> | \x02 alt (\x03 alt)* \x04
//! options  := key=value (\x1f key=value)*;  value := literal | a~b (symbolic integer) | ? (symbolic
//! bool) | v1|v2|... (one path per value)
use crate::sym::*;
use hongdown::*;

pub struct Alpha { pub w: usize, pub flat: Vec<u8> }
pub struct Spec { pub prop: Vec<u8>, pub args: Vec<Vec<u8>>, pub opts: Options, pub doc: String, pub known: Vec<Vec<u8>> }

fn split(b: &[u8], c: u8) -> Vec<Vec<u8>> {
    let mut r = vec![Vec::new()];
    for &x in b { if x == c { r.push(Vec::new()) } else { r.last_mut().unwrap().push(x) } }
    r
}
fn gen_doc(b: &[u8], p: &mut usize, al: &[Alpha]) -> Vec<u8> {
    let mut out = Vec::new();
    while *p < b.len() {
        match b[*p] {
            1 => { let a = &al[b[*p + 1] as usize - 32]; *p += 2; hole(&mut out, a.w, &a.flat); }
            2 => {
                let mut alts = Vec::new();
                loop { *p += 1; alts.push(gen_doc(b, p, al)); if b[*p] == 4 { break; } }
                *p += 1;
                let k = pick(alts.len());
                out.extend_from_slice(&alts[k]);
            }
            3 | 4 => return out,
            c => { out.push(c); *p += 1; }
        }
    }
    out
}
pub fn num(s: &str) -> usize { let mut n = 0usize; for c in s.bytes() { n = n * 10 + (c - b'0') as usize; } n }
enum Val { Sym(usize), Lit(String) }
fn value(v: &str) -> Val {
    if v == "?" { return Val::Sym(choice(2)); }
    if let Some(i) = v.find('~') {
        let (a, b) = (&v[..i], &v[i + 1..]);
        if !a.is_empty() && a.bytes().all(|c| c.is_ascii_digit()) && !b.is_empty() && b.bytes().all(|c| c.is_ascii_digit()) {
            let (a, b) = (num(a), num(b));
            return Val::Sym(a + choice(b - a + 1));
        }
    }
    if v.contains("||") {
        let mut alts: Vec<&str> = Vec::new();
        let mut r = v;
        while let Some(i) = r.find("||") { alts.push(&r[..i]); r = &r[i + 2..]; }
        alts.push(r);
        return Val::Lit(alts[pick(alts.len())].to_string());
    }
    Val::Lit(v.to_string())
}
fn us(v: Val) -> usize { match v { Val::Sym(n) => n, Val::Lit(s) => num(&s) } }
fn bo(v: Val) -> bool { match v { Val::Sym(n) => n != 0, Val::Lit(s) => s == "1" } }
fn st(v: Val) -> String { match v { Val::Lit(s) => s, Val::Sym(_) => panic!("spec") } }
fn list(v: Val) -> Vec<String> { let s = st(v); if s.is_empty() { return Vec::new(); } let mut r = vec![String::new()]; for c in s.chars() { if c == ',' { r.push(String::new()) } else { r.last_mut().unwrap().push(c) } } r }
fn dash(v: Val) -> DashSetting { let s = st(v); if s == "off" { DashSetting::Disabled } else { DashSetting::Pattern(DashPattern::new(s).unwrap()) } }
fn set(o: &mut Options, k: &str, v: Val) {
    match k {
        "lw" => o.line_width = LineWidth::new(us(v)).unwrap(),
        "s1" => o.setext_h1 = bo(v),
        "s2" => o.setext_h2 = bo(v),
        "sc" => o.heading_sentence_case = bo(v),
        "pn" => o.heading_proper_nouns = list(v),
        "cn" => o.heading_common_nouns = list(v),
        "um" => o.unordered_marker = match st(v).as_str() { "*" => UnorderedMarker::Asterisk, "+" => UnorderedMarker::Plus, _ => UnorderedMarker::Hyphen },
        "ls" => o.leading_spaces = LeadingSpaces::new(us(v)).unwrap(),
        "ts" => o.trailing_spaces = TrailingSpaces::new(us(v)).unwrap(),
        "iw" => o.indent_width = IndentWidth::new(us(v)).unwrap(),
        "om" => o.odd_level_marker = if st(v) == ")" { OrderedMarker::Parenthesis } else { OrderedMarker::Period },
        "en" => o.even_level_marker = if st(v) == ")" { OrderedMarker::Parenthesis } else { OrderedMarker::Period },
        "op" => o.ordered_list_pad = if st(v) == "end" { OrderedListPad::End } else { OrderedListPad::Start },
        "ow" => o.ordered_list_indent_width = IndentWidth::new(us(v)).unwrap(),
        "fc" => o.fence_char = if st(v) == "`" { FenceChar::Backtick } else { FenceChar::Tilde },
        "fl" => o.min_fence_length = MinFenceLength::new(us(v)).unwrap(),
        "sf" => o.space_after_fence = bo(v),
        "dl" => o.default_language = st(v),
        "tb" => o.thematic_break_style = ThematicBreakStyle::new(st(v)).unwrap(),
        "tl" => o.thematic_break_leading_spaces = LeadingSpaces::new(us(v)).unwrap(),
        "dq" => o.curly_double_quotes = bo(v),
        "sq" => o.curly_single_quotes = bo(v),
        "ap" => o.curly_apostrophes = bo(v),
        "el" => o.ellipsis = bo(v),
        "nd" => o.en_dash = dash(v),
        "md" => o.em_dash = dash(v),
        _ => panic!("unknown option {k}"),
    }
}
pub fn load() -> Spec {
    let raw = spec();
    let parts = split(&raw, 0x1e);
    let pa = split(&parts[0], 0x1f);
    let mut al = Vec::new();
    for a in split(&parts[2], 0x1d) {
        if a.is_empty() { continue; }
        al.push(Alpha { w: (a[0] - b'0') as usize, flat: a[1..].to_vec() });
    }
    let mut p = 0;
    let doc = gen_doc(&parts[3], &mut p, &al);
    let doc = String::from_utf8(doc).unwrap();
    let mut opts = Options::default();
    for kv in split(&parts[1], 0x1f) {
        if kv.is_empty() { continue; }
        let kv = String::from_utf8(kv).unwrap();
        let i = kv.find('=').unwrap();
        set(&mut opts, &kv[..i], value(&kv[i + 1..]));
    }
    let known = if parts.len() > 4 { split(&parts[4], 0x1d).into_iter().filter(|k| !k.is_empty()).collect() } else { Vec::new() };
    Spec { prop: pa[0].clone(), args: pa[1..].to_vec(), opts, doc, known }
}

/// Known-finding patterns: a tiny regular-expression matcher (literals, \\x escapes, [set], [^set],
/// '.', * + ?, ^ and $ at line boundaries), searched anywhere in the text.
pub fn matches(pat: &[u8], t: &[u8]) -> bool {
    let mut i = 0;
    loop { if at(pat, t, i) { return true; } if i >= t.len() { return false; } i += 1; }
}
fn item(p: &[u8]) -> usize {
    if p[0] == b'\\' { return 2; }
    if p[0] == b'[' { let mut i = 1; if p[i] == b'^' { i += 1; } loop { if p[i] == b'\\' { i += 2; continue; } if p[i] == b']' { return i + 1; } i += 1; } }
    1
}
fn lit(c: u8) -> u8 { if c == b'n' { b'\n' } else { c } }
fn one(p: &[u8], c: u8) -> bool {
    match p[0] {
        b'\\' => lit(p[1]) == c,
        b'.' => c != b'\n',
        b'[' => {
            let neg = p[1] == b'^';
            let mut i = if neg { 2 } else { 1 };
            let mut m = false;
            while p[i] != b']' {
                let lo = if p[i] == b'\\' { i += 1; lit(p[i]) } else { p[i] };
                i += 1;
                let mut hi = lo;
                if p[i] == b'-' && p[i + 1] != b']' { i += 1; hi = p[i]; i += 1; }
                if lo <= c && c <= hi { m = true; }
            }
            m != neg
        }
        x => x == c,
    }
}
fn at(p: &[u8], t: &[u8], i: usize) -> bool {
    if p.is_empty() { return true; }
    if p[0] == b'^' { return (i == 0 || t[i - 1] == b'\n') && at(&p[1..], t, i); }
    if p[0] == b'$' { return (i >= t.len() || t[i] == b'\n') && at(&p[1..], t, i); }
    let n = item(p);
    let (it, rest) = (&p[..n], &p[n..]);
    let q = if rest.is_empty() { 0 } else { rest[0] };
    match q {
        b'*' | b'+' => {
            let r = &rest[1..];
            let mut j = i;
            if q == b'+' { if j < t.len() && one(it, t[j]) { j += 1; } else { return false; } }
            loop { if at(r, t, j) { return true; } if j < t.len() && one(it, t[j]) { j += 1; } else { return false; } }
        }
        b'?' => (i < t.len() && one(it, t[i]) && at(&rest[1..], t, i + 1)) || at(&rest[1..], t, i),
        _ => i < t.len() && one(it, t[i]) && at(rest, t, i + 1),
    }
}
