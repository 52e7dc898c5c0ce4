//! C17 and C18: configuration values and layers.
use crate::oracle::Cx;
use crate::spec::num;
use crate::sym::*;
use comrak::nodes::NodeValue;
use hongdown::config::*;
use hongdown::*;

fn text(b: &[u8]) -> String { String::from_utf8(b.to_vec()).unwrap() }
/// A style is a thematic break by the CommonMark parser alone, and begins with its marker.
fn is_break(s: &str) -> bool {
    if s.is_empty() || s.as_bytes()[0] == b' ' || s.as_bytes()[0] == b'\t' { return false; }
    let arena = comrak::Arena::new();
    let root = comrak::parse_document(&arena, s, &comrak::Options::default());
    match root.first_child() { Some(c) => c.next_sibling().is_none() && matches!(c.data.borrow().value, NodeValue::ThematicBreak), None => false }
}
fn is_dash(s: &str) -> bool { !s.is_empty() && s.bytes().all(|c| c > 32 && c < 127) }
/// `digits` without sign or leading zero
fn plain(s: &str) -> bool { !s.is_empty() && s.bytes().all(|c| c.is_ascii_digit()) && (s.len() == 1 || s.as_bytes()[0] != b'0') }

/// kind, then for `toml` the field
pub fn values(cx: &Cx) {
    let d = &cx.s.doc[..];
    let arg = |i: usize| text(cx.arg(i));
    reach(1);
    match &arg(0)[..] {
        "style" => {
            let r = ThematicBreakStyle::new(d.to_string());
            // surrounding white space does not count
            cx.expect(r.is_ok() == is_break(d.trim()), 171);
            if let Ok(s) = r { cx.expect(s.as_str() == d.trim(), 172); }
        }
        "dash" => {
            let r = DashPattern::new(d.to_string());
            cx.expect(r.is_ok() == is_dash(d), 173);
            if let Ok(s) = r { cx.expect(s.as_str() == d, 174); }
        }
        "num" => {
            let n = num(d);
            let a = [LineWidth::new(n).map(|x| x.get()), IndentWidth::new(n).map(|x| x.get()), MinFenceLength::new(n).map(|x| x.get()), LeadingSpaces::new(n).map(|x| x.get()), TrailingSpaces::new(n).map(|x| x.get())];
            let ok = [n >= 8, n >= 1, n >= 3, n <= 3, n <= 3];
            for i in 0..5 {
                cx.expect(a[i].is_ok() == ok[i], 175);
                if let Ok(v) = a[i] { cx.expect(v == n, 176); }
            }
            if let Ok(l) = LineWidth::new(n) { cx.expect(l.is_below_recommended() == (n < 40), 177); }
        }
        "pair" => {
            // two dash patterns: d = en \x05 em
            let i = d.find(',').unwrap();
            let (a, b) = (&d[..i], &d[i + 1..]);
            let mut o = Options::default();
            if let (Ok(x), Ok(y)) = (DashPattern::new(a.to_string()), DashPattern::new(b.to_string())) {
                o.en_dash = DashSetting::Pattern(x);
                o.em_dash = DashSetting::Pattern(y);
                cx.expect(validate_dash_settings(&o).is_err() == (a == b), 178);
            }
        }
        "toml" => {
            let f = arg(1);
            let (q, sect) = match f.find('.') { Some(i) => (f[i + 1..].to_string(), f[..i].to_string()), None => (f.clone(), String::new()) };
            let strv = !d.is_empty() && d.as_bytes()[0] == b'\'';
            let sv = if strv { &d[1..d.len() - 1] } else { d };
            let t = if sect.is_empty() { format!("{q} = {d}\n") } else { format!("[{sect}]\n{q} = {d}\n") };
            let want = field(&f, sv, strv);
            let got = Config::from_toml(&t).ok();
            cx.expect(got.is_some() == want.is_some(), 179);
            cx.expect(got == want, 180);
            let layer: Option<ConfigLayer> = toml::from_str(&t).ok();
            cx.expect(layer.is_some() == want.is_some(), 181);
            if let (Some(l), Some(w)) = (layer, want) { cx.expect(l.merge_over(Config::default()) == w, 182); }
        }
        k => panic!("unknown kind {k}"),
    }
}
/// The default configuration with one field set, or None where the value is not allowed.
fn field(f: &str, v: &str, strv: bool) -> Option<Config> {
    let mut c = Config::default();
    let n = if !strv && plain(v) { Some(num(v)) } else { None };
    let b = if strv { None } else if v == "true" { Some(true) } else if v == "false" { Some(false) } else { None };
    let s = if strv { Some(v) } else { None };
    match f {
        "line_width" => { let n = n?; if n < 8 { return None; } c.line_width = LineWidth::new(n).ok()?; }
        "no_inherit" => c.no_inherit = b?,
        "git_aware" => c.git_aware = b?,
        "heading.setext_h1" => c.heading.setext_h1 = b?,
        "heading.setext_h2" => c.heading.setext_h2 = b?,
        "heading.sentence_case" => c.heading.sentence_case = b?,
        "unordered_list.unordered_marker" => c.unordered_list.unordered_marker = match s? { "-" => UnorderedMarker::Hyphen, "*" => UnorderedMarker::Asterisk, "+" => UnorderedMarker::Plus, _ => return None },
        "unordered_list.leading_spaces" => { let n = n?; if n > 3 { return None; } c.unordered_list.leading_spaces = LeadingSpaces::new(n).ok()?; }
        "unordered_list.trailing_spaces" => { let n = n?; if n > 3 { return None; } c.unordered_list.trailing_spaces = TrailingSpaces::new(n).ok()?; }
        "unordered_list.indent_width" => { let n = n?; if n < 1 { return None; } c.unordered_list.indent_width = IndentWidth::new(n).ok()?; }
        "ordered_list.odd_level_marker" => c.ordered_list.odd_level_marker = match s? { "." => OrderedMarker::Period, ")" => OrderedMarker::Parenthesis, _ => return None },
        "ordered_list.even_level_marker" => c.ordered_list.even_level_marker = match s? { "." => OrderedMarker::Period, ")" => OrderedMarker::Parenthesis, _ => return None },
        "ordered_list.pad" => c.ordered_list.pad = match s? { "start" => OrderedListPad::Start, "end" => OrderedListPad::End, _ => return None },
        "ordered_list.indent_width" => { let n = n?; if n < 1 { return None; } c.ordered_list.indent_width = IndentWidth::new(n).ok()?; }
        "code_block.fence_char" => c.code_block.fence_char = match s? { "~" => FenceChar::Tilde, "`" => FenceChar::Backtick, _ => return None },
        "code_block.min_fence_length" => { let n = n?; if n < 3 { return None; } c.code_block.min_fence_length = MinFenceLength::new(n).ok()?; }
        "code_block.space_after_fence" => c.code_block.space_after_fence = b?,
        "code_block.default_language" => c.code_block.default_language = s?.to_string(),
        "thematic_break.style" => { let s = s?.trim(); if !is_break(s) { return None; } c.thematic_break.style = ThematicBreakStyle::new(s.to_string()).ok()?; }
        "thematic_break.leading_spaces" => { let n = n?; if n > 3 { return None; } c.thematic_break.leading_spaces = LeadingSpaces::new(n).ok()?; }
        "punctuation.curly_double_quotes" => c.punctuation.curly_double_quotes = b?,
        "punctuation.curly_single_quotes" => c.punctuation.curly_single_quotes = b?,
        "punctuation.curly_apostrophes" => c.punctuation.curly_apostrophes = b?,
        "punctuation.ellipsis" => c.punctuation.ellipsis = b?,
        "punctuation.en_dash" => c.punctuation.en_dash = setting(v, strv)?,
        "punctuation.em_dash" => c.punctuation.em_dash = setting(v, strv)?,
        _ => panic!("unknown field {f}"),
    }
    Some(c)
}
fn setting(v: &str, strv: bool) -> Option<DashSetting> {
    if strv { if is_dash(v) { Some(DashSetting::Pattern(DashPattern::new(v.to_string()).ok()?)) } else { None } }
    else if v == "false" { Some(DashSetting::Disabled) } else { None }
}

fn flag() -> bool { choice(2) != 0 }
fn strings() -> Vec<String> { if flag() { vec!["a".to_string(), "b".to_string()] } else { Vec::new() } }
fn some<T>(set: bool, v: T) -> Option<T> { if set { Some(v) } else { None } }
fn width() -> LineWidth { LineWidth::new(8 + choice(200)).unwrap() }
fn lead() -> LeadingSpaces { LeadingSpaces::new(choice(4)).unwrap() }
fn indent() -> IndentWidth { IndentWidth::new(1 + choice(9)).unwrap() }
fn om() -> OrderedMarker { if flag() { OrderedMarker::Period } else { OrderedMarker::Parenthesis } }
fn dashes() -> DashSetting { if flag() { DashSetting::Disabled } else { DashSetting::Pattern(DashPattern::new("~~".to_string()).unwrap()) } }
/// One layer: the group of fields `g` symbolic, each set or unset.
fn layer(g: usize) -> ConfigLayer {
    let mut l = ConfigLayer::default();
    match g {
        0 => { l.no_inherit = flag(); let w = width(); l.line_width = some(flag(), w); let a = flag(); l.git_aware = some(flag(), a); }
        1 => { let s = strings(); l.include = some(flag(), s); let s = strings(); l.exclude = some(flag(), s); }
        2 => { let h = HeadingConfig { setext_h1: flag(), setext_h2: flag(), sentence_case: flag(), proper_nouns: strings(), common_nouns: strings() }; l.heading = some(flag(), h); }
        3 => {
            let u = UnorderedListConfig { unordered_marker: if flag() { UnorderedMarker::Plus } else { UnorderedMarker::Asterisk }, leading_spaces: lead(), trailing_spaces: TrailingSpaces::new(choice(4)).unwrap(), indent_width: indent() };
            l.unordered_list = some(flag(), u);
            let o = OrderedListConfig { odd_level_marker: om(), even_level_marker: om(), pad: if flag() { OrderedListPad::Start } else { OrderedListPad::End }, indent_width: indent() };
            l.ordered_list = some(flag(), o);
        }
        4 => {
            let c = CodeBlockConfig { fence_char: if flag() { FenceChar::Tilde } else { FenceChar::Backtick }, min_fence_length: MinFenceLength::new(3 + choice(5)).unwrap(), space_after_fence: flag(), ..CodeBlockConfig::default() };
            l.code_block = some(flag(), c);
            let t = ThematicBreakConfig { style: ThematicBreakStyle::new((if flag() { "***" } else { "_ _ _" }).to_string()).unwrap(), leading_spaces: lead() };
            l.thematic_break = some(flag(), t);
        }
        _ => {
            let p = PunctuationConfig { curly_double_quotes: flag(), curly_single_quotes: flag(), curly_apostrophes: flag(), ellipsis: flag(), en_dash: dashes(), em_dash: dashes() };
            l.punctuation = some(flag(), p);
        }
    }
    l
}
/// C18: `n` layers merged over the defaults, the higher last
pub fn layers(cx: &Cx) {
    match cx.arg(0) { b"merge" => merge(cx), _ => partial(cx) }
}
fn merge(cx: &Cx) {
    let n = num(&text(cx.arg(1)));
    let g = num(&text(cx.arg(2)));
    let mut ls: Vec<ConfigLayer> = Vec::new();
    for _ in 0..n { ls.push(layer(g)); }
    let mut c = Config::default();
    for l in ls.iter() { c = l.clone().merge_over(c); }
    reach(1);
    macro_rules! top { ($f:ident) => {{ let mut w = Config::default().$f; for l in ls.iter() { if let Some(v) = &l.$f { w = v.clone(); } } cx.expect(c.$f == w, 185); }} }
    top!(line_width); top!(include); top!(exclude); top!(git_aware); top!(heading); top!(unordered_list);
    top!(ordered_list); top!(code_block); top!(thematic_break); top!(punctuation);
    if n > 0 { cx.expect(c.no_inherit == ls[n - 1].no_inherit, 186); }
}
/// two layers given as TOML, `lower \x1d upper` in the document: a setting of the lower layer that
/// the upper one does not mention stays
fn partial(cx: &Cx) {
    let d = &cx.s.doc[..];
    let i = d.find('%').unwrap();
    let (a, b) = (&d[..i], &d[i + 1..]);
    let (x, y): (Result<ConfigLayer, _>, Result<ConfigLayer, _>) = (toml::from_str(a), toml::from_str(b));
    if let (Ok(x), Ok(y)) = (x, y) {
        let c = y.merge_over(x.merge_over(Config::default()));
        reach(1);
        // the settings of both texts in one, the upper ones later
        let mut all = String::new();
        for l in a.lines() { let k = key(l); if !k.is_empty() && !b.lines().any(|m| key(m) == k) { all.push_str(l); all.push('\n'); } }
        all.push_str(b);
        let want: Result<ConfigLayer, _> = toml::from_str(&all);
        if let Ok(w) = want { cx.expect(c == w.merge_over(Config::default()), 187); }
    }
}
fn key(l: &str) -> String { match l.find('=') { Some(i) => l[..i].trim().to_string(), None => String::new() } }
