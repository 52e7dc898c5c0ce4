#![allow(dead_code, static_mut_refs)]
pub mod sym;
pub mod spec;
pub mod canon;
pub mod oracle;
pub mod surface;
pub mod conf;
pub mod warn;
#[cfg(hsym)]
mod models;

#[unsafe(no_mangle)]
pub extern "C" fn hsym_entry() {
    let s = spec::load();
    oracle::run(s);
}
#[unsafe(no_mangle)]
pub extern "C" fn hsym_warmup() {
    let o = hongdown::Options::default();
    let _ = hongdown::format("# a\n\nb *c* `d` [e](f)\n\n - g\n", &o);
}
