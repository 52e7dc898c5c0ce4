//! The property assertions.  Only the public interface of the crate under test is used.
use crate::canon::*;
use crate::spec::{matches, Spec};
use crate::surface::*;
use crate::sym::*;
use hongdown::*;

pub struct Cx<'s> { pub s: &'s Spec }
impl<'s> Cx<'s> {
    /// the property failed on this path: a violation unless the document belongs to a listed
    /// finding (`pattern`, or `id!pattern` for one assertion only)
    pub fn fail(&self, id: u32) {
        for (i, k) in self.s.known.iter().enumerate() {
            let mut p = &k[..];
            let mut only = 0;
            let mut j = 0;
            while j < k.len() && k[j].is_ascii_digit() { only = only * 10 + (k[j] - b'0') as u32; j += 1; }
            if j > 0 && j < k.len() && k[j] == b'!' { p = &k[j + 1..]; if only != id { continue; } }
            if matches(p, self.s.doc.as_bytes()) { reach(1000 + i as u32); assume(false); }
        }
        check(false, id);
    }
    pub fn expect(&self, c: bool, id: u32) { if c { check(true, id) } else { self.fail(id) } }
    pub fn fmt(&self, d: &str) -> String { match format(d, &self.s.opts) { Ok(s) => s, Err(_) => { self.fail(90); String::new() } } }
    pub fn cf(&self) -> Cf {
        let o = &self.s.opts;
        let pat = |d: &DashSetting| match d { DashSetting::Pattern(p) => p.as_str().as_bytes().to_vec(), _ => b"--".to_vec() };
        Cf { caseless: o.heading_sentence_case, en: pat(&o.en_dash), em: pat(&o.em_dash), lang: o.default_language.as_bytes().to_vec(), ..Cf::default() }
    }
    /// format, and compare the trees of input and output
    pub fn same(&self, d: &str) -> String {
        let a = self.fmt(d);
        let mut f = self.cf();
        let (x, y) = (tree_in(d, &mut f), tree(&a, &f));
        reach(1);
        self.expect(x == y || (f.caseless && lower_all(&x) == lower_all(&y)), 3);
        a
    }
    pub fn arg(&self, i: usize) -> &[u8] { if i < self.s.args.len() { &self.s.args[i] } else { b"" } }
}
fn begins(b: &[u8], p: &[u8]) -> bool { b.len() >= p.len() && &b[..p.len()] == p }
pub fn contains(h: &[u8], n: &[u8]) -> bool { let mut i = 0; while i + n.len() <= h.len() { if &h[i..i + n.len()] == n { return true; } i += 1; } false }

pub fn run(s: Spec) {
    note(s.doc.as_bytes());
    let cx = Cx { s: &s };
    let d = &s.doc[..];
    match &s.prop[..] {
        b"C01" => { let _ = cx.fmt(d); reach(1); let _ = format_with_warnings(d, &s.opts); }
        b"C02" => { let a = cx.fmt(d); let b = cx.fmt(&a); reach(1); cx.expect(a == b, 2); }
        b"C03" | b"C09" | b"C10" | b"C26" | b"C27" | b"C29" => { cx.same(d); }
        b"C04" => {
            // in-prefix, in-suffix, out-prefix, out-suffix, out-suffix when the body swallows what follows
            let a = cx.fmt(d);
            let (b, o) = (d.as_bytes(), a.as_bytes());
            let body = &b[cx.arg(0).len()..b.len() - cx.arg(1).len()];
            reach(1);
            cx.expect(begins(o, cx.arg(2)), 41);
            let r = &o[cx.arg(2).len()..];
            cx.expect(begins(r, body), 42);
            let t = &r[body.len()..];
            cx.expect(t == cx.arg(3) || (s.args.len() > 4 && t == cx.arg(4)), 43);
        }
        b"C05" => { let a = cx.same(d); fences(&cx, &a); }
        b"C06" => {
            let a = cx.fmt(d);
            let f = Cf { fold: false, ..cx.cf() };
            let (x, y) = (tree(d, &f), tree(&a, &f));
            reach(1);
            substitutions(&cx, &x, &y);
        }
        b"C07" => {
            let a = cx.same(d);
            if s.opts.heading_sentence_case { if let (Some(x), Some(y)) = (heading_text(d), heading_text(&a)) { sentence_case(&cx, d, &x, &y); } }
        }
        b"C08" => { let a = cx.fmt(d); reach(1); widths(&cx, &a); }
        b"C11" => { let a = cx.same(d); headings(&cx, &a); }
        b"C12" => { let a = cx.same(d); lists(&cx, &a); }
        b"C13" => { let a = cx.same(d); tables(&cx, &a); }
        b"C14" => { let a = cx.same(d); definitions(&cx, &a); }
        b"C15" => { let a = cx.same(d); footnote_defs(&cx, &a); }
        b"C16" => {
            let a = cx.fmt(d);
            let b = a.as_bytes();
            let n = b.len();
            reach(1);
            if n > 0 { cx.expect(b[n - 1] == b'\n', 1); if n > 1 { cx.expect(b[n - 2] != b'\n', 2); } }
        }
        b"C17" => crate::conf::values(&cx),
        b"C18" => crate::conf::layers(&cx),
        b"C22" => {
            let a = cx.fmt(d);
            let w = match format_with_warnings(d, &s.opts) { Ok(w) => w.output, Err(_) => { cx.fail(90); String::new() } };
            reach(1);
            cx.expect(a == w, 221);
        }
        b"C23" => crate::warn::warnings(&cx, d),
        b"C24" => {
            // the bytes between the two prefixes given as arguments are in the output as they are
            let a = cx.same(d);
            let b = d.as_bytes();
            let body = &b[cx.arg(0).len()..b.len() - cx.arg(1).len()];
            // what looks like HTML need not be
            let is = body[0] != b'<' || with_ast(d, |root| {
                let mut found = false;
                each(root, &mut |n| match &n.data.borrow().value {
                    comrak::nodes::NodeValue::HtmlInline(h) => found |= h.as_bytes() == body,
                    comrak::nodes::NodeValue::HtmlBlock(h) => found |= contains(h.literal.as_bytes(), body),
                    _ => {}
                });
                found
            });
            if is { cx.expect(contains(a.as_bytes(), body), 241); }
        }
        b"C25" => { let a = cx.same(d); breaks(&cx, &a); }
        b"C28" => { let a = cx.same(d); quotes(&cx, &a); }
        b"show" => { let a = cx.fmt(d); note(a.as_bytes()); let f = cx.cf(); note(&tree(d, &f)); note(&tree(&a, &f)); let b = cx.fmt(&a); note(b.as_bytes()); }
        _ => panic!("unknown property"),
    }
}
