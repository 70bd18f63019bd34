//! Runtime of the symbolic harnesses.  Under rsym the imports are the executor's primitives; in the
//! replay they are implemented by harness/replay.mjs, which feeds back the solver's assignment.
use std::alloc::{GlobalAlloc, Layout};

#[link(wasm_import_module = "sym")]
extern "C" {
    fn __sym_int(bits: u32, lo: u64, hi: u64, name: *const u8, len: usize) -> u64;
    fn __sym_bytes(ptr: *mut u8, n: usize, name: *const u8, len: usize);
    fn __sym_assume(c: u32);
    fn __sym_check(c: u32, msg: *const u8, len: usize);
    fn __sym_reach(p: *const u8, len: usize);
    fn __sym_note(p: *const u8, len: usize);
    fn __sym_trace(v: u64);
    fn __sym_concretize(v: u64) -> u64;
    fn __sym_end() -> !;
    fn __sym_expect_panic(on: u32);
    fn __sym_live_allocs() -> usize;
    fn __sym_alloc(size: usize, align: usize) -> *mut u8;
    fn __sym_dealloc(p: *mut u8, size: usize);
    fn __sym_realloc(p: *mut u8, old: usize, align: usize, new: usize) -> *mut u8;
}

pub struct SymAlloc;
unsafe impl GlobalAlloc for SymAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { __sym_alloc(l.size(), l.align()) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { __sym_dealloc(p, l.size()) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { __sym_realloc(p, l.size(), l.align(), n) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { __sym_alloc(l.size(), l.align()) }
}
#[cfg(target_arch = "wasm32")]
#[global_allocator]
static A: SymAlloc = SymAlloc;

/// Symbolic integer of `bits` bits in lo..=hi (unsigned).
pub fn int(name: &str, bits: u32, lo: u64, hi: u64) -> u64 { unsafe { __sym_int(bits, lo, hi, name.as_ptr(), name.len()) } }
pub fn u8(name: &str) -> u8 { int(name, 8, 0, 0xff) as u8 }
pub fn u16(name: &str) -> u16 { int(name, 16, 0, 0xffff) as u16 }
pub fn u32(name: &str) -> u32 { int(name, 32, 0, 0xffff_ffff) as u32 }
pub fn u64(name: &str) -> u64 { int(name, 64, 0, u64::MAX) }
pub fn i32(name: &str) -> i32 { u32(name) as i32 }
pub fn i64(name: &str) -> i64 { u64(name) as i64 }
/// Every bit pattern of a double, NaNs and infinities included.
pub fn f64(name: &str) -> f64 { f64::from_bits(u64(name)) }
pub fn bool(name: &str) -> bool { int(name, 8, 0, 1) == 1 }
/// Nondeterministic choice 0..n, one path per value.
pub fn choice(name: &str, n: usize) -> usize { if n <= 1 { return 0; } unsafe { __sym_concretize(int(name, 16, 0, n as u64 - 1)) as usize } }
pub fn flag(name: &str) -> bool { choice(name, 2) == 1 }
pub fn bytes(name: &str, n: usize) -> Vec<u8> { let mut v = vec![0u8; n]; if n > 0 { unsafe { __sym_bytes(v.as_mut_ptr(), n, name.as_ptr(), name.len()) } } v }
/// Symbolic ASCII string of exactly `n` bytes (all 128 code points each).
pub fn ascii(name: &str, n: usize) -> String {
    let v = bytes(name, n);
    for b in &v { assume(*b < 0x80); }
    unsafe { String::from_utf8_unchecked(v) }
}
/// Symbolic string of exactly `n` bytes, every byte one of `alphabet`.
pub fn word(name: &str, n: usize, alphabet: &[u8]) -> String {
    let v = bytes(name, n);
    for b in &v { let mut ok = 0u32; for a in alphabet { ok |= (*b == *a) as u32; } unsafe { __sym_assume(ok) } }
    unsafe { String::from_utf8_unchecked(v) }
}
/// Symbolic Unicode string of `n` characters; `classes` limits the UTF-8 width of each (1..=4 allowed).
pub fn unicode(name: &str, n: usize, max_width: usize) -> String {
    let mut out: Vec<u8> = Vec::new();
    for _ in 0..n {
        let w = 1 + choice("utf8width", max_width);
        let v = bytes(name, w);
        let cont = |b: u8| assume(b & 0xc0 == 0x80);
        match w {
            1 => assume(v[0] < 0x80),
            2 => { assume(v[0] >= 0xc2 && v[0] <= 0xdf); cont(v[1]); }
            3 => { assume(v[0] & 0xf0 == 0xe0); cont(v[1]); cont(v[2]); assume(v[0] != 0xe0 || v[1] >= 0xa0); assume(v[0] != 0xed || v[1] < 0xa0); }
            _ => { assume(v[0] >= 0xf0 && v[0] <= 0xf4); cont(v[1]); cont(v[2]); cont(v[3]); assume(v[0] != 0xf0 || v[1] >= 0x90); assume(v[0] != 0xf4 || v[1] < 0x90); }
        }
        out.extend_from_slice(&v);
    }
    unsafe { String::from_utf8_unchecked(out) }
}
#[inline(always)]
pub fn assume(c: bool) { unsafe { __sym_assume(c as u32) } }
#[inline(always)]
pub fn check(c: bool, msg: &str) { unsafe { __sym_check(c as u32, msg.as_ptr(), msg.len()) } }
pub fn reach(s: &str) { unsafe { __sym_reach(s.as_ptr(), s.len()) } }
pub fn note(s: &str) { unsafe { __sym_note(s.as_ptr(), s.len()) } }
pub fn trace(v: u64) { unsafe { __sym_trace(v) } }
pub fn trace_bytes(v: &[u8]) { trace(v.len() as u64); for b in v { trace(*b as u64) } }
pub fn concretize(v: u64) -> u64 { unsafe { __sym_concretize(v) } }
pub fn end() -> ! { unsafe { __sym_end() } }
pub fn expect_panic(on: bool) { unsafe { __sym_expect_panic(on as u32) } }
/// The next panic runs to its end: the host must be told (and then ends the run with `end`).
pub fn real_panic() { unsafe { __sym_expect_panic(2) } }
pub fn live_allocs() -> usize { unsafe { __sym_live_allocs() } }
