//! Normal forms of the CommonMark tree, computed with comrak from the text alone
//! (independent of hongdown's serializer).
use comrak::nodes::{AstNode, ListDelimType, ListType, NodeValue, TableAlignment};
use comrak::{parse_document, Arena, Options as CO};

pub fn copts() -> CO<'static> {
    let mut o = CO::default();
    o.extension.front_matter_delimiter = Some("---".to_string());
    o.extension.table = true;
    o.extension.description_lists = true;
    o.extension.alerts = true;
    o.extension.footnotes = true;
    o.extension.tasklist = true;
    o
}
/// What the normal form keeps.
#[derive(Clone)]
pub struct Cf {
    pub fold: bool,      // undo typographic substitutions
    pub caseless: bool,  // headings compared without letter case
    pub code: bool,      // code block contents
    pub tight: bool,
    pub en: Vec<u8>,       // what an en dash and an em dash stand for
    pub em: Vec<u8>,
    pub lang: Vec<u8>,   // default_language, as an alternative to an empty info string
}
impl Default for Cf { fn default() -> Self { Cf { fold: true, caseless: false, code: true, tight: true, en: b"--".to_vec(), em: b"--".to_vec(), lang: Vec::new() } } }

pub fn put(o: &mut Vec<u8>, s: &[u8]) { o.extend_from_slice(s) }
fn dec(o: &mut Vec<u8>, n: usize) { put(o, n.to_string().as_bytes()) }

/// Typographic characters back to the ASCII they stand for.
pub fn fold(t: &[u8], f: &Cf) -> Vec<u8> {
    let mut o = Vec::with_capacity(t.len());
    let mut i = 0;
    while i < t.len() {
        if t[i] == 0xE2 && i + 2 < t.len() && t[i + 1] == 0x80 {
            match t[i + 2] {
                0x98 | 0x99 => { o.push(b'\''); i += 3; continue; }
                0x9C | 0x9D => { o.push(b'"'); i += 3; continue; }
                0xA6 => { put(&mut o, b"..."); i += 3; continue; }
                0x93 => { put(&mut o, &f.en); i += 3; continue; }
                0x94 => { put(&mut o, &f.em); i += 3; continue; }
                _ => {}
            }
        }
        o.push(t[i]);
        i += 1;
    }
    o
}
/// Runs of spaces to one space; none at either end.
pub fn squeeze(t: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(t.len());
    let mut sp = false;
    for &c in t {
        if c == b' ' || c == b'\n' || c == b'\t' { sp = true; continue; }
        if sp && !o.is_empty() { o.push(b' '); }
        sp = false;
        o.push(c);
    }
    o
}
/// ASCII letters outside \x01..\x02 in lower case.
pub fn lower(t: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(t.len());
    let mut tag = false;
    for &c in t {
        if c == 1 { tag = true }
        if c == 2 { tag = false }
        o.push(if tag { c } else { c.to_ascii_lowercase() });
    }
    o
}

/// All letters outside \x01..\x02 in one case.
pub fn lower_all(t: &[u8]) -> String {
    let mut o = String::new();
    let mut tag = false;
    for c in String::from_utf8_lossy(t).chars() {
        if c == '\x01' { tag = true }
        if c == '\x02' { tag = false }
        if tag { o.push(c) } else { for u in c.to_uppercase() { for l in u.to_lowercase() { o.push(l); } } }
    }
    o
}

pub struct Canon<'x> { pub out: Vec<u8>, pub f: &'x Cf, pend: Vec<u8>, in_heading: bool }
pub fn with_ast<R>(doc: &str, f: impl for<'a> FnOnce(&'a AstNode<'a>) -> R) -> R {
    let arena = Arena::new();
    let root = parse_document(&arena, doc, &copts());
    f(root)
}
pub fn tree(doc: &str, f: &Cf) -> Vec<u8> { with_ast(doc, |root| tree_of(root, f)) }
/// The tree of an input.  Where it has a footnote definition in a list, whether that list is loose
/// may be due to the definition, which is output elsewhere.
pub fn tree_in(doc: &str, f: &mut Cf) -> Vec<u8> {
    with_ast(doc, |root| {
        let lines: Vec<usize> = root.descendants().filter(|n| is_def(n)).map(|n| n.data.borrow().sourcepos.start.line).collect();
        if !lines.is_empty() && root.descendants().any(|n| {
            let d = n.data.borrow();
            matches!(d.value, NodeValue::List(_)) && lines.iter().any(|l| d.sourcepos.start.line <= *l && *l <= d.sourcepos.end.line)
        }) { f.tight = false; }
        tree_of(root, f)
    })
}
pub fn tree_of<'a>(root: &'a AstNode<'a>, f: &Cf) -> Vec<u8> {
    let mut c = Canon { out: Vec::new(), f, pend: Vec::new(), in_heading: false };
    c.block(root);
    c.out
}
/// An item holds a block after its first, other than a list following a paragraph: the style sets
/// those off by blank lines, which makes the list loose.
fn sets_off<'a>(list: &'a AstNode<'a>) -> bool {
    list.children().any(|i| i.children().filter(|c| !is_def(c)).skip(1).any(|c| !matches!(c.data.borrow().value, NodeValue::List(_)) || !c.previous_sibling().is_some_and(|p| matches!(p.data.borrow().value, NodeValue::Paragraph))))
}
/// A list of one item with one block cannot be loose on its own (only a definition in it, which is
/// output elsewhere, made it so).
fn lone<'a>(list: &'a AstNode<'a>) -> bool { list.children().count() < 2 && list.children().all(|i| i.children().filter(|c| !is_def(c)).count() < 2) }
fn is_def<'a>(n: &'a AstNode<'a>) -> bool { matches!(n.data.borrow().value, NodeValue::FootnoteDefinition(_)) }
fn beside<'a>(n: &'a AstNode<'a>, after: bool) -> Option<&'a AstNode<'a>> {
    let step = |n: &'a AstNode<'a>| if after { n.next_sibling() } else { n.previous_sibling() };
    let mut s = step(n);
    while let Some(x) = s { if is_def(x) { s = step(x) } else { break } }
    s
}
fn is_dl<'a>(n: Option<&'a AstNode<'a>>) -> bool { n.is_some_and(|n| matches!(n.data.borrow().value, NodeValue::DescriptionList)) }
/// The footnotes a node refers to.
fn refs<'a>(n: &'a AstNode<'a>) -> Vec<String> {
    let mut r = Vec::new();
    let mut stack: Vec<_> = n.children().collect();
    if let NodeValue::FootnoteReference(x) = &n.data.borrow().value { r.push(x.name.clone()); }
    while let Some(d) = stack.pop() {
        if let NodeValue::FootnoteReference(x) = &d.data.borrow().value { r.push(x.name.clone()); }
        if !is_def(d) { stack.extend(d.children()); }
    }
    r
}
impl<'x> Canon<'x> {
    /// inline text is collected across nodes, tags being written as \x01x...\x02, and squeezed as one
    fn flush(&mut self) {
        let p = std::mem::take(&mut self.pend);
        let p = if self.f.fold { fold(&p, self.f) } else { p };
        let p = squeeze(&p);
        let p = if self.in_heading && self.f.caseless { lower(&p) } else { p };
        put(&mut self.out, &p);
    }
    fn kids<'a>(&mut self, n: &'a AstNode<'a>) { for c in n.children() { self.block(c); } }
    fn inl<'a>(&mut self, n: &'a AstNode<'a>) {
        for c in n.children() { self.inline(c); }
    }
    fn wrap<'a>(&mut self, tag: &[u8], n: &'a AstNode<'a>) {
        put(&mut self.pend, b"\x01"); put(&mut self.pend, tag); put(&mut self.pend, b"\x02");
        self.inl(n);
        put(&mut self.pend, b"\x01/"); put(&mut self.pend, tag); put(&mut self.pend, b"\x02");
    }
    /// the text of a link; spaces at its ends do not count
    fn label<'a>(&mut self, n: &'a AstNode<'a>) {
        let keep = std::mem::take(&mut self.pend);
        self.inl(n);
        let text = squeeze(&std::mem::replace(&mut self.pend, keep));
        put(&mut self.pend, &text);
    }
    fn atom(&mut self, tag: &[u8], s: &[u8]) {
        put(&mut self.pend, b"\x01"); put(&mut self.pend, tag);
        // protect the content from squeezing
        for &c in s { self.pend.push(match c { b' ' => 3, b'\n' => 4, b'\t' => 5, c => c }); }
        put(&mut self.pend, b"\x02");
    }
    fn inline<'a>(&mut self, n: &'a AstNode<'a>) {
        let d = n.data.borrow();
        match &d.value {
            NodeValue::Text(t) => put(&mut self.pend, t.as_bytes()),
            NodeValue::SoftBreak => put(&mut self.pend, b" "),
            NodeValue::LineBreak => put(&mut self.pend, b" \x01br\x02 "),
            NodeValue::Code(c) => self.atom(b"code ", c.literal.as_bytes()),
            NodeValue::HtmlInline(h) => self.atom(b"html ", &squeeze(h.as_bytes())),
            NodeValue::Emph => self.wrap(b"em", n),
            NodeValue::Strong => self.wrap(b"st", n),
            NodeValue::Strikethrough => self.wrap(b"del", n),
            NodeValue::Link(l) => {
                self.atom(b"a ", l.url.as_bytes()); self.atom(b"t ", &fold(&squeeze(l.title.as_bytes()), self.f));
                self.label(n); put(&mut self.pend, b"\x01/a\x02");
            }
            NodeValue::Image(l) => {
                self.atom(b"img ", l.url.as_bytes()); self.atom(b"t ", &fold(&squeeze(l.title.as_bytes()), self.f));
                self.label(n); put(&mut self.pend, b"\x01/img\x02");
            }
            NodeValue::FootnoteReference(r) => self.atom(b"fn ", r.name.as_bytes()),
            NodeValue::Escaped => self.inl(n),
            _ => { put(&mut self.pend, b"\x01?"); self.inl(n); put(&mut self.pend, b"\x02"); }
        }
    }
    fn leaf<'a>(&mut self, tag: &[u8], n: &'a AstNode<'a>) {
        put(&mut self.out, b"("); put(&mut self.out, tag); put(&mut self.out, b" ");
        self.inl(n);
        self.flush();
        put(&mut self.out, b")");
    }
    fn cont<'a>(&mut self, tag: &[u8], n: &'a AstNode<'a>) {
        put(&mut self.out, b"("); put(&mut self.out, tag);
        self.kids(n);
        put(&mut self.out, b")");
    }
    pub fn block<'a>(&mut self, n: &'a AstNode<'a>) {
        let d = n.data.borrow();
        match &d.value {
            NodeValue::Document => {
                // footnote definitions are collected apart: the formatter may move them
                for c in n.children() { if !matches!(c.data.borrow().value, NodeValue::FootnoteDefinition(_)) { self.block(c); } }
                put(&mut self.out, b"|");
                let mut defs: Vec<(String, Vec<u8>, Vec<String>)> = Vec::new();
                for c in n.descendants() {
                    if let NodeValue::FootnoteDefinition(fd) = &c.data.borrow().value {
                        let keep = std::mem::take(&mut self.out);
                        self.kids(c);
                        let body = std::mem::replace(&mut self.out, keep);
                        // only the first definition of a label counts, and only if something refers to it
                        if !defs.iter().any(|(k, _, _)| *k == fd.name) { defs.push((fd.name.clone(), body, refs(c))); }
                    }
                }
                let mut used: Vec<String> = n.children().filter(|c| !is_def(c)).flat_map(refs).collect();
                let mut i = 0;
                while i < used.len() {
                    for (k, _, r) in &defs { if *k == used[i] { for x in r.clone() { if !used.contains(&x) { used.push(x); } } } }
                    i += 1;
                }
                defs.retain(|(k, _, _)| used.contains(k));
                defs.sort();
                for (k, v, _) in defs { put(&mut self.out, b"[^"); put(&mut self.out, k.as_bytes()); put(&mut self.out, b"]"); put(&mut self.out, &v); }
            }
            NodeValue::FrontMatter(s) => { put(&mut self.out, b"(fm \x01"); put(&mut self.out, s.trim_end().as_bytes()); put(&mut self.out, b"\x02)"); }
            NodeValue::BlockQuote => self.cont(b"bq", n),
            NodeValue::Alert(a) => {
                put(&mut self.out, b"(alert "); put(&mut self.out, a.alert_type.default_title().as_bytes()); put(&mut self.out, b" ");
                if let Some(t) = &a.title { let t = fold(&squeeze(t.as_bytes()), self.f); put(&mut self.out, &t); }
                self.kids(n); put(&mut self.out, b")");
            }
            NodeValue::List(l) => {
                match l.list_type {
                    ListType::Bullet => put(&mut self.out, b"(ul"),
                    ListType::Ordered => { put(&mut self.out, b"(ol "); dec(&mut self.out, l.start); }
                }
                if self.f.tight { put(&mut self.out, if (l.tight || lone(n)) && !sets_off(n) { b" tight" } else { b" loose" }); }
                self.kids(n); put(&mut self.out, b")");
                let _ = ListDelimType::Period;
            }
            NodeValue::Item(_) => self.cont(b"li", n),
            NodeValue::TaskItem(t) => { put(&mut self.out, b"(task "); self.out.push(if t.symbol.is_some() { b'x' } else { b' ' }); self.kids(n); put(&mut self.out, b")"); }
            // description lists next to each other are one
            NodeValue::DescriptionList => {
                if !is_dl(beside(n, false)) { put(&mut self.out, b"(dl"); }
                self.kids(n);
                if !is_dl(beside(n, true)) { put(&mut self.out, b")"); }
            }
            NodeValue::DescriptionItem(_) => self.cont(b"di", n),
            NodeValue::DescriptionTerm => self.cont(b"dt", n),
            NodeValue::DescriptionDetails => self.cont(b"dd", n),
            NodeValue::CodeBlock(c) => {
                put(&mut self.out, b"(pre \x01");
                let info = squeeze(c.info.as_bytes());
                if info.is_empty() { let l = self.f.lang.clone(); put(&mut self.out, &l); } else { put(&mut self.out, &info); }
                put(&mut self.out, b":");
                if self.f.code { put(&mut self.out, c.literal.as_bytes()); }
                put(&mut self.out, b"\x02)");
            }
            NodeValue::HtmlBlock(h) => { put(&mut self.out, b"(html \x01"); put(&mut self.out, h.literal.trim_end().as_bytes()); put(&mut self.out, b"\x02)"); }
            NodeValue::Paragraph => self.leaf(b"p", n),
            NodeValue::Heading(h) => { self.in_heading = true; let t = [b'h', b'0' + h.level]; self.leaf(&t, n); self.in_heading = false; }
            NodeValue::ThematicBreak => put(&mut self.out, b"(hr)"),
            NodeValue::FootnoteDefinition(_) => {}
            NodeValue::Table(t) => {
                put(&mut self.out, b"(table ");
                for a in &t.alignments { self.out.push(match a { TableAlignment::None => b'n', TableAlignment::Left => b'l', TableAlignment::Center => b'c', TableAlignment::Right => b'r' }); }
                self.kids(n); put(&mut self.out, b")");
            }
            NodeValue::TableRow(_) => self.cont(b"tr", n),
            NodeValue::TableCell => self.leaf(b"td", n),
            _ => self.leaf(b"?", n),
        }
    }
}
