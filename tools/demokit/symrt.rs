//! Assertions of the demonstration.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
#[link(wasm_import_module = "demo")]
extern "C" { fn fail(p: *const u8, n: usize); #[allow(dead_code)] fn say(p: *const u8, n: usize); }
pub fn check(c: bool, m: &str) { if !c { unsafe { fail(m.as_ptr(), m.len()) } } }
#[allow(dead_code)]
pub fn note(m: &str) { unsafe { say(m.as_ptr(), m.len()) } }
#[allow(dead_code)]
pub fn reach(_: &str) {}
#[allow(dead_code)]
pub fn end() { }
pub fn concretize(v: u64) -> u64 { v }
pub fn int(_n: &str, _b: u32, lo: u64, _hi: u64) -> u64 { lo }
static LIVE: AtomicUsize = AtomicUsize::new(0);
#[allow(dead_code)]
pub fn live_allocs() -> usize { LIVE.load(Relaxed) }
static BYTES: AtomicUsize = AtomicUsize::new(0);
#[allow(dead_code)]
pub fn live_bytes() -> usize { BYTES.load(Relaxed) }
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(1, Relaxed); BYTES.fetch_add(l.size(), Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(1, Relaxed); BYTES.fetch_sub(l.size(), Relaxed); std::ptr::write_bytes(p, 0xdd, l.size()); System.dealloc(p, l) }
}
#[global_allocator]
static ALLOC: A = A;
