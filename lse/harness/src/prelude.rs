//! How a harness gets its inputs and states its claims.
use nd;
use rand_core::{CryptoRng, Error, RngCore};
use std::alloc::{GlobalAlloc, Layout};

extern "C" {
    fn vp_fail(label: *const u8, len: usize) -> !;
    fn vp_reach(label: *const u8, len: usize);
    fn vp_buffer(len: usize, max: usize) -> *mut u8;
    fn vp_readable(ptr: *const u8, len: usize);
    fn vp_must_be_zero(ptr: *const u8, len: usize, label: *const u8, n: usize);
    fn vp_zero_when_freed(ptr: *const u8, len: usize, label: *const u8, n: usize);
    fn vp_one_of(n: usize) -> usize;
    fn vp_record();
    fn vp_replay();
    fn _Znwm(size: usize) -> *mut u8;
    fn _ZdlPv(ptr: *mut u8);
    fn vp_alloc_zeroed(size: usize) -> *mut u8;
}
/// Allocation is told apart from the foreign `malloc`, under names which the optimizer knows: writes to memory about to be
/// freed are as dead to it as with any other allocator.
pub struct Watched;
unsafe impl GlobalAlloc for Watched {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { _Znwm(l.size()) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { vp_alloc_zeroed(l.size()) }
    unsafe fn dealloc(&self, p: *mut u8, _l: Layout) { _ZdlPv(p) }
}
pub fn claim(c: bool, label: &'static str) { if !c { unsafe { vp_fail(label.as_ptr(), label.len()) } } }
pub fn reach(label: &'static str) { unsafe { vp_reach(label.as_ptr(), label.len()) } }
/// From here on abstracted results are kept; then they are given again, in the same order, for the same operands.
pub fn record() { unsafe { vp_record() } }
pub fn replay() { unsafe { vp_replay() } }
pub fn assume(c: bool) { nd::assume(c) }
/// At most `max`.
pub fn any_usize(max: usize) -> usize {
    let mut b = [0u8; 8];
    nd::fill(&mut b, 0);
    let n = u64::from_le_bytes(b) as usize;
    assume(n <= max);
    n
}
/// At most `max`; each value is explored on its own.
pub fn each(max: usize) -> usize {
    let n = any_usize(max);
    unsafe { vp_one_of(n) }
}
/// A buffer of exactly `len` (at most `max`) unconstrained bytes.
pub fn buffer(len: usize, max: usize) -> &'static [u8] {
    unsafe { ::std::slice::from_raw_parts(vp_buffer(len, max), len) }
}
/// The same, of any length up to `max`.
pub fn any_buffer(max: usize) -> &'static [u8] { buffer(any_usize(max), max) }
/// The same byte strings: one arbitrary position stands for all.
pub fn same(a: &[u8], b: &[u8], label: &'static str) {
    claim(a.len() == b.len(), label);
    if cfg!(feature = "native") {
        nd::fill(&mut [0u8; 8], 0);
        return claim(a == b, label);
    }
    let i = any_usize(1 << 12);
    if i < a.len() {
        claim(a[i] == b[i], label);
    }
}
pub fn readable(p: *const u8, n: usize) -> &'static [u8] {
    unsafe {
        vp_readable(p, n);
        ::std::slice::from_raw_parts(p, n)
    }
}
pub fn must_be_zero<T>(p: *const T, label: &'static str) {
    unsafe { vp_must_be_zero(p as *const u8, ::std::mem::size_of::<T>(), label.as_ptr(), label.len()) }
}
pub fn zero_when_freed<T>(p: *const T, n: usize, label: &'static str) {
    unsafe { vp_zero_when_freed(p as *const u8, n * ::std::mem::size_of::<T>(), label.as_ptr(), label.len()) }
}
/// A generator which may give anything.
pub struct AnyRng;
impl RngCore for AnyRng {
    fn next_u32(&mut self) -> u32 { ::rand_core::impls::next_u32_via_fill(self) }
    fn next_u64(&mut self) -> u64 { ::rand_core::impls::next_u64_via_fill(self) }
    fn fill_bytes(&mut self, dest: &mut [u8]) { nd::fill(dest, 0) }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> { Ok(nd::fill(dest, 0)) }
}
impl CryptoRng for AnyRng {}
macro_rules! any { ($n:expr) => { { let mut b = [0u8; $n]; ::nd::fill(&mut b, 0); b } } }
macro_rules! harnesses { ($($n:ident $b:block)*) => {
    $( #[no_mangle] pub extern "C" fn $n() $b )*
    pub static TABLE: &'static [(&'static str, extern "C" fn())] = &[ $((stringify!($n), $n as extern "C" fn())),* ];
} }
