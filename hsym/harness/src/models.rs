//! Scalar re-implementations substituted for vectorised library routines, and a
//! memo for Regex::new (pure function of the pattern).  See DESIGN.md, trusted base.
use regex::Regex;
#[unsafe(no_mangle)]
pub fn hsym_model_memchr(x: u8, text: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < text.len() { if text[i] == x { return Some(i); } i += 1; }
    None
}
#[unsafe(no_mangle)]
pub fn hsym_model_memrchr(x: u8, text: &[u8]) -> Option<usize> {
    let mut i = text.len();
    while i > 0 { i -= 1; if text[i] == x { return Some(i); } }
    None
}
#[unsafe(no_mangle)]
pub fn hsym_model_simd_contains(needle: &str, hay: &str) -> Option<bool> {
    let (n, h) = (needle.as_bytes(), hay.as_bytes());
    if n.len() > h.len() { return Some(false); }
    let mut i = 0;
    while i + n.len() <= h.len() { 
        let mut j = 0;
        while j < n.len() && h[i + j] == n[j] { j += 1; }
        if j == n.len() { return Some(true); }
        i += 1;
    }
    Some(false)
}
static mut MEMO: Vec<(&'static str, Regex)> = Vec::new();
#[unsafe(no_mangle)]
pub fn hsym_model_regex_new(re: &str) -> Result<Regex, regex::Error> {
    unsafe {
        let m = &mut *core::ptr::addr_of_mut!(MEMO);
        for (k, v) in m.iter() { if *k == re { return Ok(v.clone()); } }
        let r = regex::RegexBuilder::new(re).build()?;
        m.push((Box::leak(re.to_string().into_boxed_str()), r.clone()));
        Ok(r)
    }
}
