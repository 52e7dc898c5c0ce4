//! C23: warnings
use crate::oracle::Cx;
use crate::canon::with_ast;
use crate::surface::{each, lines};
use comrak::nodes::NodeValue;
use crate::sym::*;
use comrak::{options::BrokenLinkReference, ResolvedReference};
use hongdown::*;
use std::sync::{Arc, Mutex};

pub fn warnings(cx: &Cx, d: &str) {
    let w = match format_with_warnings(d, &cx.s.opts) { Ok(w) => w.warnings, Err(_) => { cx.fail(90); Vec::new() } };
    reach(1);
    let ls = lines(d);
    if cx.arg(0) == b"table" {
        // the rows of each table by the parser, the cells of each row by the parser too
        let mut want = Vec::new();
        with_ast(d, |root| each(root, &mut |n| {
            let q = n.data.borrow();
            if let NodeValue::Table(t) = &q.value {
                for row in n.children() {
                    let r = row.data.borrow();
                    let k = r.sourcepos.start.line;
                    if k < 1 || k > ls.len() { continue; }
                    let l = ls[k - 1];
                    let l = if r.sourcepos.start.column <= l.len() { &l[r.sourcepos.start.column - 1..] } else { l };
                    if !has_cells(l, t.alignments.len()) { want.push(k); }
                }
            }
        }));
        let got: Vec<usize> = w.iter().filter(|x| x.message.contains("table")).map(|x| x.line).collect();
        cx.expect(got == want, 231);
        return;
    }
    let broken: Arc<Mutex<Vec<String>>> = Arc::new(Mutex::new(Vec::new()));
    let seen = broken.clone();
    let mut o = crate::canon::copts();
    o.parse.broken_link_callback = Some(Arc::new(move |r: BrokenLinkReference| -> Option<ResolvedReference> { seen.lock().unwrap().push(r.original.to_string()); None }));
    let arena = comrak::Arena::new();
    comrak::parse_document(&arena, d, &o);
    // labels named by the argument are in disabled regions, or are abbreviations
    let skip: Vec<String> = (0..cx.s.args.len()).map(|i| String::from_utf8_lossy(cx.arg(i)).into_owned()).collect();
    let want: Vec<String> = broken.lock().unwrap().iter().filter(|l| !l.is_empty() && !l.starts_with('^') && !l.starts_with('!') && !skip.contains(l)
        // what looks like a definition or an abbreviation
        && !ls.iter().any(|x| { let t = format!("[{}]:", l); let x = crate::surface::trim(x); x.starts_with(t.as_bytes()) || (x.len() > 0 && x[0] == b'*' && x[1..].starts_with(t.as_bytes())) })).cloned().collect();
    for l in &want { cx.expect(w.iter().any(|x| x.message.contains(&format!("[{}]", l))), 232); }
    for x in &w {
        cx.expect(want.iter().any(|l| x.message.contains(&format!("[{}]", l))), 233);
        cx.expect(x.line >= 1 && x.line <= ls.len(), 234);
        if x.line >= 1 && x.line <= ls.len() {
            // the line has the label, in brackets (which may span lines)
            let t = String::from_utf8_lossy(ls[x.line - 1]).into_owned();
            cx.expect(want.iter().any(|l| x.message.contains(&format!("[{}]", l)) && (l.contains('\n') || t.contains(&format!("[{}]", l)))), 235);
        }
    }
    // no more warnings than places
    for l in &want {
        let n = w.iter().filter(|x| x.message.contains(&format!("[{}]", l))).count();
        cx.expect(n <= d.matches(&format!("[{}]", l)[..]).count(), 236);
    }
}
/// Whether a row has that many cells: as a header, it makes a table with a delimiter row of as many.
fn has_cells(l: &[u8], n: usize) -> bool {
    let mut t = l.to_vec();
    t.extend_from_slice(b"\n|");
    for _ in 0..n { t.extend_from_slice(b"-|"); }
    t.push(b'\n');
    let t = String::from_utf8_lossy(&t).into_owned();
    with_ast(&t, |root| matches!(root.first_child().map(|c| matches!(c.data.borrow().value, NodeValue::Table(_))), Some(true)))
}
