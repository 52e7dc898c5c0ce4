//! Native re-execution of one counterexample (or any assignment) against the ordinary build of
//! /repo: `replay SPECFILE a0,a1,...`.  Exit 0: property held; 10: check failed; 11: panic.
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
static mut SPEC: Vec<u8> = Vec::new();
static mut AS: Vec<usize> = Vec::new();
static NEXT: AtomicUsize = AtomicUsize::new(0);
fn next(n: u64) -> usize { let i = NEXT.fetch_add(1, Relaxed); unsafe { let a = &*core::ptr::addr_of!(AS); let v = a.get(i).copied().unwrap_or(0); if v >= n as usize { eprintln!("choice {i} out of range"); std::process::exit(2) } v } }
#[unsafe(no_mangle)] extern "C" fn __s_x_hole(p: *mut u8, w: u64, n: u64, t: *const u8) { let k = next(n); unsafe { core::ptr::copy_nonoverlapping(t.add(k * w as usize), p, w as usize) } }
#[unsafe(no_mangle)] extern "C" fn __s_x_choice(n: u64) -> u64 { next(n) as u64 }
#[unsafe(no_mangle)] extern "C" fn __s_x_assert(c: u8, id: u32) { if c & 1 == 0 { println!("RESULT check {id} failed"); std::process::exit(10) } }
#[unsafe(no_mangle)] extern "C" fn __s_x_assume(c: u8) { if c & 1 == 0 { println!("RESULT assumption does not hold"); std::process::exit(0) } }
#[unsafe(no_mangle)] extern "C" fn __s_x_reach(_: u32) {}
#[unsafe(no_mangle)] extern "C" fn __s_x_note(p: *const u8, n: u64) { let s = unsafe { core::slice::from_raw_parts(p, n as usize) }; println!("NOTE {:?}", String::from_utf8_lossy(s)) }
#[unsafe(no_mangle)] extern "C" fn __s_x_spec(p: *mut u8, cap: u64) -> u64 { unsafe { let s = &*core::ptr::addr_of!(SPEC); if s.len() as u64 <= cap { core::ptr::copy_nonoverlapping(s.as_ptr(), p, s.len()) } s.len() as u64 } }
fn main() {
    let a: Vec<String> = std::env::args().collect();
    unsafe { SPEC = std::fs::read(&a[1]).unwrap(); AS = if a.len() > 2 && !a[2].is_empty() { a[2].split(',').map(|x| x.parse().unwrap()).collect() } else { Vec::new() }; }
    std::panic::set_hook(Box::new(|i| { println!("RESULT panic {i}"); std::process::exit(11) }));
    harness::hsym_entry();
    println!("RESULT held");
}
