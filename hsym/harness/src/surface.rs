//! Checks on how the output is written (styles, widths, fences, markers), read off the
//! output's own syntax tree and text.
use crate::canon::*;
use crate::oracle::{contains, Cx};
use comrak::nodes::{AstNode, ListDelimType, ListType, NodeValue};
use hongdown::*;

pub fn lines(s: &str) -> Vec<&[u8]> {
    let b = s.as_bytes();
    let mut v = Vec::new();
    let mut st = 0;
    let mut i = 0;
    while i < b.len() { if b[i] == b'\n' { v.push(&b[st..i]); st = i + 1; } i += 1; }
    if st < b.len() { v.push(&b[st..]); }
    v
}
fn line<'t>(l: &[&'t [u8]], n: usize) -> &'t [u8] { if n >= 1 && n <= l.len() { l[n - 1] } else { b"" } }
/// Display columns: East Asian wide characters count two.
pub fn width(b: &[u8]) -> usize {
    let mut n = 0;
    let mut i = 0;
    while i < b.len() {
        let c = b[i] as u32;
        let (cp, k) = if c < 0x80 { (c, 1) }
            else if c < 0xE0 { ((c & 0x1F) << 6 | (b[i + 1] as u32 & 0x3F), 2) }
            else if c < 0xF0 { ((c & 0xF) << 12 | (b[i + 1] as u32 & 0x3F) << 6 | (b[i + 2] as u32 & 0x3F), 3) }
            else { ((c & 7) << 18 | (b[i + 1] as u32 & 0x3F) << 12 | (b[i + 2] as u32 & 0x3F) << 6 | (b[i + 3] as u32 & 0x3F), 4) };
        i += k;
        let zero = (0x300..0x370).contains(&cp) || cp == 0x200B || cp == 0x200D || (0xFE00..0xFE10).contains(&cp);
        let wide = (0x1100..0x1160).contains(&cp) || (0x2E80..0xA4D0).contains(&cp) || (0xAC00..0xD7A4).contains(&cp)
            || (0xF900..0xFB00).contains(&cp) || (0xFE30..0xFE70).contains(&cp) || (0xFF00..0xFF61).contains(&cp)
            || (0xFFE0..0xFFE7).contains(&cp) || (0x1F300..0x1F650).contains(&cp);
        n += if zero { 0 } else if wide { 2 } else { 1 };
    }
    n
}
pub fn trim(b: &[u8]) -> &[u8] {
    let mut a = 0;
    let mut z = b.len();
    while a < z && b[a] == b' ' { a += 1; }
    while z > a && b[z - 1] == b' ' { z -= 1; }
    &b[a..z]
}
pub fn each<'a>(n: &'a AstNode<'a>, f: &mut dyn FnMut(&'a AstNode<'a>)) { f(n); for c in n.children() { each(c, f); } }
fn starts(b: &[u8], p: &[u8]) -> bool { b.len() >= p.len() && &b[..p.len()] == p }
fn drop_front(b: &[u8], n: usize) -> &[u8] { if n <= b.len() { &b[n..] } else { b"" } }

/// C11: style and underline of every heading of the output
pub fn headings(cx: &Cx, out: &str) {
    let o = &cx.s.opts;
    let ls = lines(out);
    with_ast(out, |root| each(root, &mut |n| {
        let d = n.data.borrow();
        if let NodeValue::Heading(h) = &d.value {
            let want = (h.level == 1 && o.setext_h1) || (h.level == 2 && o.setext_h2);
            let first = drop_front(line(&ls, d.sourcepos.start.line), d.sourcepos.start.column - 1);
            if h.setext {
                cx.expect(want, 11);
                let last = line(&ls, d.sourcepos.end.line);
                let c = if h.level == 1 { b'=' } else { b'-' };
                let mut k = last.len();
                while k > 0 && last[k - 1] == c { k -= 1; }
                // only hard line breaks make it longer than one line of text
                let mut hard = 0;
                each(n, &mut |m| if let NodeValue::LineBreak = m.data.borrow().value { hard += 1 });
                cx.expect(d.sourcepos.end.line == d.sourcepos.start.line + 1 + hard, 12);
                let mut w = width(trim(first));
                for l in d.sourcepos.start.line + 1..d.sourcepos.end.line { w = w.max(width(trim(drop_front(line(&ls, l), d.sourcepos.start.column - 1)))); }
                cx.expect(last.len() - k == w, 13);
            } else {
                let mut k = 0;
                while k < first.len() && first[k] == b'#' { k += 1; }
                cx.expect(k == h.level as usize, 14);
                let text = trim(&first[k..]);
                if want && !text.is_empty() && (text[0].is_ascii_alphabetic() || text[0] >= 0x80) {
                    // only a text that has no setext form may stay ATX (one that begins with
                    // punctuation or a digit may be taken for another block)
                    let mut s = b"p\n\n".to_vec();
                    let mut me = s.clone();
                    s.extend_from_slice(text);
                    s.extend_from_slice(if h.level == 1 { b"\n===\n" } else { b"\n---\n" });
                    me.extend_from_slice(&first[..k]);
                    me.push(b' ');
                    me.extend_from_slice(text);
                    me.push(b'\n');
                    let (s, me) = (String::from_utf8(s).unwrap(), String::from_utf8(me).unwrap());
                    let f = Cf { fold: false, ..Cf::default() };
                    cx.expect(tree(&s, &f) != tree(&me, &f), 15);
                }
            }
        }
    }));
}
/// C05: fence character, length and spacing of every code block of the output
pub fn fences(cx: &Cx, out: &str) {
    let o = &cx.s.opts;
    let ls = lines(out);
    with_ast(out, |root| each(root, &mut |n| {
        let d = n.data.borrow();
        if let NodeValue::CodeBlock(c) = &d.value {
            cx.expect(c.fenced, 51);
            let want = o.fence_char.as_char() as u8;
            cx.expect(c.fence_char == want || c.info.as_bytes().contains(&b'`'), 52);
            cx.expect(c.fence_length >= o.min_fence_length.get(), 53);
            let open = drop_front(line(&ls, d.sourcepos.start.line), d.sourcepos.start.column - 1);
            let rest = drop_front(open, c.fence_length);
            if !rest.is_empty() { cx.expect((rest[0] == b' ') == o.space_after_fence || (rest[0] == b' ' && rest.len() > 1 && rest[1] == c.fence_char), 54); }
            // the fence is longer than any run of its character that starts a content line
            for l in lines(&c.literal) {
                let t = trim(l);
                let mut k = 0;
                while k < t.len() && t[k] == c.fence_char { k += 1; }
                cx.expect(k < c.fence_length, 55);
            }
        }
    }));
}
/// C12: markers, numbers, spacing
pub fn lists(cx: &Cx, out: &str) {
    let o = &cx.s.opts;
    let ls = lines(out);
    let (lead, trail) = (o.leading_spaces.get(), if o.trailing_spaces.get() == 0 { 1 } else { o.trailing_spaces.get() });
    with_ast(out, |root| each(root, &mut |n| {
        let d = n.data.borrow();
        let l = if let NodeValue::List(l) = &d.value { *l } else { return };
        // nesting level within the closest container other than a list
        let mut depth = 1;
        let mut p = n.parent();
        let mut details = false;
        let mut bare = true; // nothing but lists around it
        while let Some(q) = p {
            match &q.data.borrow().value {
                NodeValue::List(_) => depth += 1,
                NodeValue::Item(_) | NodeValue::TaskItem(_) => {}
                NodeValue::DescriptionDetails => { details = true; bare = false; break; }
                NodeValue::Document => break,
                _ => { bare = false; break; }
            }
            p = q.parent();
        }
        let mut odd = false;
        let mut s = n.previous_sibling();
        while let Some(q) = s {
            match &q.data.borrow().value { NodeValue::List(m) if m.list_type == l.list_type => odd = !odd, _ => break }
            s = q.previous_sibling();
        }
        let mut k = 0;
        for item in n.children() {
            let id = item.data.borrow();
            let src = drop_front(line(&ls, id.sourcepos.start.line), id.sourcepos.start.column - 1);
            match l.list_type {
                ListType::Bullet => {
                    let want = o.unordered_marker.as_char() as u8;
                    let want = if !odd { want } else if want == b'-' { b'*' } else { b'-' };
                    cx.expect(!src.is_empty() && src[0] == want, 121);
                    // spaces after the bullet
                    let mut j = 1;
                    while j < src.len() && src[j] == b' ' { j += 1; }
                    if j < src.len() { cx.expect(j - 1 == trail || (matches!(first_kind(item), Kind::Break | Kind::List)), 122); }
                    // right after another list, not as far as the contents of its last item
                    let limit = match n.previous_sibling() {
                        Some(q) if matches!(q.data.borrow().value, NodeValue::List(_)) => q.last_child().map_or(usize::MAX, |i| content_column(&ls, i) - 1),
                        _ => usize::MAX,
                    };
                    if bare && depth == 1 { cx.expect(id.sourcepos.start.column == (lead + 1).min(limit), 123); }
                    if bare && depth == 2 && n.previous_sibling().is_some() && o.indent_width.get() > trail {
                        // one level deeper than the parent's items, if these are bullets too
                        if let Some(pl) = n.parent().and_then(|i| i.parent()) {
                            if let NodeValue::List(pv) = &pl.data.borrow().value {
                                let after_list = pl.previous_sibling().is_some_and(|q| matches!(q.data.borrow().value, NodeValue::List(_)));
                                if pv.list_type == ListType::Bullet && !after_list {
                                    let step = if o.indent_width.get() < trail + 4 { o.indent_width.get() } else { trail + 4 };
                                    cx.expect(id.sourcepos.start.column == (lead + 1 + step).min(limit), 124);
                                }
                            }
                        }
                    }
                }
                ListType::Ordered => {
                    let m = if depth % 2 == 1 { o.odd_level_marker } else { o.even_level_marker };
                    let want = if (m == OrderedMarker::Parenthesis) != odd { ListDelimType::Paren } else { ListDelimType::Period };
                    cx.expect(l.delimiter == want, 125);
                    let num = (l.start + k).min(999_999_999).to_string(); // no longer number is a marker
                    cx.expect(starts(src, num.as_bytes()), 126);
                    let rest = drop_front(src, num.len() + 1);
                    let mut j = 0;
                    while j < rest.len() && rest[j] == b' ' { j += 1; }
                    let w = o.ordered_list_indent_width.get();
                    let sp = if w > num.len() + 2 { let x = w - num.len() - 1; if x > 4 { 4 } else { x } } else { 1 };
                    if j < rest.len() { cx.expect(j == sp || (matches!(first_kind(item), Kind::Break | Kind::List)), 127); }
                    if bare && depth == 1 { cx.expect(id.sourcepos.start.column == 1, 128); }
                }
            }
            k += 1;
        }
        let _ = details;
    }));
}
enum Kind { List, Break, Other }
fn first_kind<'a>(item: &'a AstNode<'a>) -> Kind {
    match item.first_child() { Some(c) => match &c.data.borrow().value { NodeValue::List(_) => Kind::List, NodeValue::ThematicBreak => Kind::Break, _ => Kind::Other }, None => Kind::Break }
}
/// C13: pipes of all rows in the same columns
pub fn tables(cx: &Cx, out: &str) {
    let ls = lines(out);
    with_ast(out, |root| each(root, &mut |n| {
        let d = n.data.borrow();
        if let NodeValue::Table(_) = &d.value {
            let mut cols: Option<Vec<usize>> = None;
            let mut w = 0;
            for k in d.sourcepos.start.line..=d.sourcepos.end.line {
                let l = drop_front(line(&ls, k), d.sourcepos.start.column - 1);
                let mut v = Vec::new();
                let mut i = 0;
                while i < l.len() { if l[i] == b'\\' { i += 2; continue; } if l[i] == b'|' { v.push(width(&l[..i])); } i += 1; }
                cx.expect(!l.is_empty() && l[0] == b'|' && l[l.len() - 1] == b'|', 131);
                match &cols { None => { cols = Some(v); w = width(l); } Some(c) => { cx.expect(*c == v, 132); cx.expect(width(l) == w, 133); } }
            }
        }
    }));
}
/// C25: every thematic break is the configured one
pub fn breaks(cx: &Cx, out: &str) {
    let o = &cx.s.opts;
    let ls = lines(out);
    with_ast(out, |root| each(root, &mut |n| {
        let d = n.data.borrow();
        if let NodeValue::ThematicBreak = &d.value {
            let l = line(&ls, d.sourcepos.start.line);
            let st = o.thematic_break_style.as_str().as_bytes();
            cx.expect(l.len() >= st.len() && &l[l.len() - st.len()..] == st, 251);
            if matches!(n.parent().map(|p| matches!(p.data.borrow().value, NodeValue::Document)), Some(true)) {
                // `---` as the first line would be front matter
                let lead = o.thematic_break_leading_spaces.get();
                let lead = if lead == 0 && st == b"---" && d.sourcepos.start.line == 1 { 1 } else { lead };
                // after a list, spaces that reach its contents would make the break a part of it
                let list = n.previous_sibling().filter(|p| matches!(p.data.borrow().value, NodeValue::List(_)));
                let mut reach = usize::MAX;
                for m in list.into_iter().chain(list.and_then(|p| p.last_child())) {
                    if let NodeValue::List(l) | NodeValue::Item(l) = &m.data.borrow().value { reach = l.marker_offset + l.padding; }
                }
                let lead = if lead >= reach { 0 } else { lead };
                let mut want = vec![b' '; lead];
                want.extend_from_slice(st);
                cx.expect(l == &want[..], 252);
            }
        }
    }));
}
/// C14: each label has one definition
pub fn definitions(cx: &Cx, out: &str) {
    let mut seen: Vec<Vec<u8>> = Vec::new();
    for l in lines(out) {
        let l = trim(l);
        if !starts(l, b"[") || starts(l, b"[^") { continue; }
        let mut i = 1;
        while i < l.len() && l[i] != b']' && l[i] != b'[' { if l[i] == b'\\' { i += 1; } i += 1; }
        if i + 1 < l.len() && l[i] == b']' && l[i + 1] == b':' {
            let lab = lower(&squeeze(&l[1..i]));
            cx.expect(!seen.contains(&lab), 141);
            seen.push(lab);
        }
    }
}
/// C15: each definition once
pub fn footnote_defs(cx: &Cx, out: &str) {
    let mut seen: Vec<Vec<u8>> = Vec::new();
    for l in lines(out) {
        if !starts(l, b"[^") { continue; }
        let mut i = 2;
        while i < l.len() && l[i] != b']' { i += 1; }
        if i + 1 < l.len() && l[i] == b']' && l[i + 1] == b':' {
            let lab = l[2..i].to_vec();
            cx.expect(!seen.contains(&lab), 151);
            seen.push(lab);
        }
    }
}
/// C28: every line of a top-level quote carries its prefix
pub fn quotes(cx: &Cx, out: &str) {
    let ls = lines(out);
    with_ast(out, |root| for n in root.children() {
        let d = n.data.borrow();
        if matches!(d.value, NodeValue::BlockQuote | NodeValue::Alert(_)) {
            for k in d.sourcepos.start.line..=d.sourcepos.end.line { cx.expect(starts(line(&ls, k), b">"), 281); }
        }
    });
}
/// The spaces of a line of prose at which it could be broken: outside code spans and brackets,
/// and followed by a word that cannot start another block.
fn breakable(t: &[u8]) -> bool {
    let mut depth = 0;
    let mut i = 0;
    let mut word = false;
    while i < t.len() {
        match t[i] {
            b'\\' => { i += 2; word = true; continue; }
            b'`' => {
                // a code span, or as many literal backticks
                let run = t[i..].iter().take_while(|c| **c == b'`').count();
                let mut j = i + run;
                let mut end = j;
                while j < t.len() {
                    let r = t[j..].iter().take_while(|c| **c == b'`').count();
                    if r == run { end = j + r; break; }
                    j += r.max(1);
                }
                i = end; word = true; continue;
            }
            b'[' => depth += 1,
            b']' if depth > 0 => {
                depth -= 1;
                // a link target with a title
                if depth == 0 && i + 1 < t.len() && t[i + 1] == b'(' {
                    let mut j = i + 2;
                    let mut quote = false;
                    while j < t.len() && !(quote && t[j] == b'"' && t[j + 1..].first() == Some(&b')')) {
                        if t[j] == b'"' && t[j - 1] == b' ' { quote = true; }
                        if t[j] == b'\\' { j += 1; }
                        j += 1;
                    }
                    if j < t.len() { i = j; }
                }
            }
            b' ' if depth == 0 && word => {
                let mut j = i;
                while j < t.len() && t[j] == b' ' { j += 1; }
                if j < t.len() && (t[j].is_ascii_alphabetic() || t[j] >= 0x80) { return true; }
            }
            _ => {}
        }
        if t[i] != b' ' { word = true; }
        i += 1;
    }
    false
}
/// C08: no breakable line of prose is wider than the line width
pub fn widths(cx: &Cx, out: &str) {
    let lw = cx.s.opts.line_width.get();
    let ls = lines(out);
    with_ast(out, |root| each(root, &mut |n| {
        let d = n.data.borrow();
        if !matches!(d.value, NodeValue::Paragraph) { return; }
        let lead = n.previous_sibling().is_none() && matches!(n.parent().map(|p| matches!(p.data.borrow().value, NodeValue::Item(_) | NodeValue::TaskItem(_))), Some(true));
        for k in d.sourcepos.start.line..=d.sourcepos.end.line {
            let l = line(&ls, k);
            let first = k == d.sourcepos.start.line;
            let t = if first { drop_front(l, d.sourcepos.start.column - 1) } else { let mut i = 0; while i < l.len() && (l[i] == b' ' || l[i] == b'>') { i += 1; } &l[i..] };
            let e = { let mut z = l.len(); while z > 0 && l[z - 1] == b' ' { z -= 1; } &l[..z] };
            if width(e) <= lw { continue; }
            if !breakable(trim(t)) { continue; }
            // the first line of a list item: its marker is not counted (a listed finding)
            if first && lead { if width(trim(t)) > lw { cx.fail(81); } else { cx.fail(82); } } else { cx.fail(81); }
        }
    }));
}
/// C06: the output text is the input text but for the substitutions the options name
pub fn substitutions(cx: &Cx, a: &[u8], b: &[u8]) {
    let o = &cx.s.opts;
    let (mut i, mut j) = (0, 0);
    let mut atom = false;
    while i < a.len() || j < b.len() {
        if i < a.len() && j < b.len() && a[i] == b[j] {
            if a[i] == 1 { atom = true }
            if a[i] == 2 { atom = false }
            i += 1; j += 1;
            continue;
        }
        let mut ok = false;
        if !atom && j + 2 < b.len() && b[j] == 0xE2 && b[j + 1] == 0x80 {
            let rest = &a[i..];
            let pat: &[u8] = match b[j + 2] {
                0x9C | 0x9D => if o.curly_double_quotes { b"\"" } else { b"" },
                0x98 => if o.curly_single_quotes { b"'" } else { b"" },
                0x99 => if o.curly_single_quotes || o.curly_apostrophes { b"'" } else { b"" },
                0xA6 => if o.ellipsis { b"..." } else { b"" },
                0x93 => match &o.en_dash { DashSetting::Pattern(p) => p.as_str().as_bytes(), _ => b"" },
                0x94 => match &o.em_dash { DashSetting::Pattern(p) => p.as_str().as_bytes(), _ => b"" },
                _ => b"",
            };
            if !pat.is_empty() && starts(rest, pat) { i += pat.len(); j += 3; ok = true; }
        }
        if !ok { cx.fail(61); return; }
    }
    // and every pattern of an enabled option is substituted; escaped characters stay
    if cx.s.doc.as_bytes().iter().any(|c| *c == b'\\' || *c == b'&') { return; }
    let mut atom = false;
    let mut k = 0;
    while k < b.len() {
        if b[k] == 1 { atom = true }
        if b[k] == 2 { atom = false }
        if !atom {
            let r = &b[k..];
            if o.curly_double_quotes { cx.expect(r[0] != b'"', 62); }
            if o.ellipsis { cx.expect(!starts(r, b"..."), 63); }
            if let DashSetting::Pattern(p) = &o.em_dash { if p.as_str().len() > 1 { cx.expect(!starts(r, p.as_str().as_bytes()), 64); } }
            if let DashSetting::Pattern(p) = &o.en_dash { if p.as_str().len() > 1 { cx.expect(!starts(r, p.as_str().as_bytes()), 65); } }
        }
        k += 1;
    }
    // and where the neighbours of a quotation mark leave no doubt, it points the right way
    if contains(cx.s.doc.as_bytes(), b"\xE2\x80") { return; }
    let mut atom = false;
    let mut prev = b' ';
    let mut k = 0;
    while k < b.len() {
        if b[k] == 1 { atom = true }
        if b[k] == 2 { atom = false }
        let q = mark(&b[k..]);
        let n = if q == 0 { 1 } else { 3 };
        if !atom && (q != 0 || b[k] == b'\'') {
            let r = &b[k + n..];
            let opens = matches!(prev, b' ' | b'(' | b'[' | b'{') && r[0].is_ascii_alphanumeric();
            let closes = prev.is_ascii_alphanumeric() && matches!(r[0], b' ' | b'.' | b',' | b';' | b':' | b'!' | b'?' | b')' | b']' | b'}');
            if opens { cx.expect(q != 0x9D, 66); }
            if closes { cx.expect(q != 0x9C && q != 0x98, 66); }
            if o.curly_apostrophes && prev.is_ascii_alphabetic() && r[0].is_ascii_alphabetic() { cx.expect(q == 0x99 || q == 0x9C || q == 0x9D, 67); }
            // a word in single quotation marks
            if opens && o.curly_single_quotes && (q == 0 || q == 0x98 || q == 0x99) {
                let mut i = 0;
                while r[i].is_ascii_alphabetic() { i += 1; }
                if i > 1 && (r[i] == b'\'' || mark(&r[i..]) == 0x98 || mark(&r[i..]) == 0x99) {
                    let e = mark(&r[i..]);
                    let z = &r[i + if e == 0 { 1 } else { 3 }..];
                    if matches!(z[0], b' ' | b'.' | b',' | b';' | b':' | b'!' | b'?') { cx.expect(q == 0x98, 68); cx.expect(e == 0x99, 69); }
                }
            }
        }
        prev = b[k];
        k += n;
    }
}
/// The last byte of a curly quotation mark that starts here.
fn mark(t: &[u8]) -> u8 { if t.len() > 2 && t[0] == 0xE2 && t[1] == 0x80 && matches!(t[2], 0x98 | 0x99 | 0x9C | 0x9D) { t[2] } else { 0 } }
fn contains_word(p: &[u8], w: &[u8]) -> bool {
    let mut i = 0;
    while i + w.len() <= p.len() {
        if p[i..i + w.len()].to_ascii_lowercase() == w && (i == 0 || !p[i - 1].is_ascii_alphanumeric()) && (i + w.len() == p.len() || !p[i + w.len()].is_ascii_alphanumeric()) { return true; }
        i += 1;
    }
    false
}
/// C07: proper nouns, common nouns, acronyms and the first letter, word by word
/// The words of an option, and those directives of the document add
fn nouns(doc: &str, dir: &[u8], opt: &[String]) -> Vec<Vec<u8>> {
    let mut r: Vec<Vec<u8>> = Vec::new();
    for x in opt { r.push(x.as_bytes().to_vec()); }
    for l in lines(doc) {
        if !starts(l, dir) { continue; }
        let mut t = &l[dir.len()..];
        let mut i = 0;
        while i < t.len() && !starts(&t[i..], b"-->") { i += 1; }
        t = &t[..i];
        let mut a = 0;
        for i in 0..=t.len() { if i == t.len() || t[i] == b',' { r.push(trim(&t[a..i]).to_vec()); a = i + 1; } }
    }
    r
}
pub fn sentence_case(cx: &Cx, doc: &str, inp: &[u8], out: &[u8]) {
    let o = &cx.s.opts;
    let proper = nouns(doc, b"<!-- hongdown-proper-nouns:", &o.heading_proper_nouns);
    let commons = nouns(doc, b"<!-- hongdown-common-nouns:", &o.heading_common_nouns);
    if inp.len() != out.len() { return; } // typographic substitution; compared letter by letter elsewhere
    // a listed name of several words, wherever it stands as words of its own
    for p in &proper {
        if !p.contains(&b' ') { continue; }
        if proper.iter().any(|x| x != p && x.split(|c| *c == b' ').any(|w| contains_word(p, &w.to_ascii_lowercase()))) { continue; }
        let (lp, li) = (p.to_ascii_lowercase(), inp.to_ascii_lowercase());
        let mut i = 0;
        while i + lp.len() <= li.len() {
            if li[i..i + lp.len()] == lp[..] && (i == 0 || li[i - 1] == b' ') && (i + lp.len() == li.len() || matches!(li[i + lp.len()], b' ' | b',' | b'!' | b'?')) { cx.expect(out[i..i + lp.len()] == p[..], 76); i += lp.len(); } else { i += 1; }
        }
    }
    let mut first = true;
    let mut after = false; // after a colon, semicolon or dash, which starts a clause
    let mut i = 0;
    while i < inp.len() {
        if inp[i] == b':' || inp[i] == b';' || inp[i] == 0x93 || inp[i] == 0x94 { after = true; }
        if inp[i] == 1 { while i < inp.len() && inp[i] != 2 { i += 1; } i += 1; first = false; continue; }
        if !inp[i].is_ascii_alphanumeric() { i += 1; continue; }
        let st = i;
        while i < inp.len() && inp[i].is_ascii_alphanumeric() { i += 1; }
        let (a, b) = (&inp[st..i], &out[st..i]);
        // words joined to something else are left to the letter-case comparison
        let open = st == 0 || inp[st - 1] == b' ';
        let alone = open && (i == inp.len() || inp[i] == b' ');
        let ended = alone || (open && matches!(inp[i], b',' | b'!' | b'?') && (i + 1 == inp.len() || inp[i + 1] == b' '));
        if ended {
            let la = a.to_ascii_lowercase();
            let mut caps = 0;
            for &c in a { if c.is_ascii_uppercase() { caps += 1; } }
            let acronym = a.len() >= 2 && caps == a.len();
            if alone && !acronym { for p in &proper { if p.to_ascii_lowercase() == la { cx.expect(b == &p[..], 71); } } }
            // a word of a listed phrase follows the phrase
            let phrase = proper.iter().any(|p| contains_word(p, &la));
            if acronym && !phrase { cx.expect(a == b, 72); }
            let common = commons.iter().any(|c| c.to_ascii_lowercase() == la);
            if common && alone && !phrase && !acronym && !first && !after { cx.expect(b == &la[..], 73); }
            if first && alone && !phrase && b[0].is_ascii_alphabetic() { cx.expect(b[0].is_ascii_uppercase() || caps > 0, 74); }
            // an ordinary word (no name begins like this) inside the sentence
            let inside = st > 1 && (inp[st - 2].is_ascii_alphanumeric() || inp[st - 2] == b',');
            if inside && !first && !after && !phrase && caps == 1 && a.len() >= 2 && a[0] == b'Z' && matches!(a[1], b'q' | b'x' | b'y' | b'w') { cx.expect(b == &la[..], 75); }
        }
        first = false;
        after = false;
    }
}
/// The text of the first heading (tags and atoms included), letter case as it is.
pub fn heading_text(doc: &str) -> Option<Vec<u8>> {
    let f = Cf::default();
    with_ast(doc, |root| root.children().find(|n| matches!(n.data.borrow().value, NodeValue::Heading(_))).map(|n| {
        let t = tree_of(n, &f);
        t[4..t.len() - 1].to_vec()
    }))
}

/// The column (from 1) where the contents of a list item start.
fn content_column<'a>(ls: &[&[u8]], item: &'a AstNode<'a>) -> usize {
    let p = item.data.borrow().sourcepos.start;
    let l = line(ls, p.line);
    let mut i = p.column - 1;
    while i < l.len() && l[i].is_ascii_digit() { i += 1; }
    i += 1;
    let m = i;
    while i < l.len() && l[i] == b' ' { i += 1; }
    if i >= l.len() { m + 2 } else { i + 1 }
}
