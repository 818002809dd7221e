//! Runs one harness on the real crates with the inputs of a counterexample: `lse_replay <harness> <tape>`.
//! Every allocation and input ends at a page which cannot be touched, and freed memory cannot be touched either.
extern crate lse_harness;
use std::cell::UnsafeCell;

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn _exit(code: i32) -> !;
    fn __real_malloc(n: usize) -> *mut u8;
}
const PAGE: usize = 4096;
const HUGE: usize = 1 << 16;

struct Tape { data: *const u8, len: usize, at: usize, active: bool, foreign: bool, failed: usize, size: usize, desync: bool }
struct Global(UnsafeCell<Tape>, UnsafeCell<[(usize, usize, usize, usize); 64]>, UnsafeCell<usize>);
unsafe impl Sync for Global {}
static G: Global = Global(UnsafeCell::new(Tape { data: 0 as *const u8, len: 0, at: 0, active: false, foreign: false, failed: 0, size: 0, desync: false }),
                          UnsafeCell::new([(0, 0, 0, 0); 64]), UnsafeCell::new(0));
fn tape() -> &'static mut Tape { unsafe { &mut *G.0.get() } }

unsafe fn say(a: &[u8], b: *const u8, n: usize) {
    write(1, b"\n".as_ptr(), 1);
    write(1, a.as_ptr(), a.len());
    write(1, b, n);
    write(1, b"\n".as_ptr(), 1);
}
unsafe fn stop(a: &[u8], code: i32) -> ! { say(a, a.as_ptr(), 0); _exit(code) }

/// Memory which ends at a guard page; the start of the mapping holds its size.
unsafe fn guarded(n: usize) -> *mut u8 {
    let body = (n + PAGE - 1) / PAGE * PAGE;
    let total = PAGE + body + PAGE;
    let p = mmap(0 as *mut u8, total, 3, 0x22, -1, 0);
    if p as isize == -1 { stop(b"outcome:no memory", 79); }
    *(p as *mut usize) = n;
    mprotect(p, PAGE, 1);
    mprotect(p.add(PAGE + body), PAGE, 0);
    // Alignment to 8 is kept: the last bytes before the guard page may be unused.
    let q = p.add(PAGE + body - n);
    let q = (q as usize & !7) as *mut u8;
    for i in 0..n { *q.add(i) = 0xa5; }
    q
}
/// Buffers of bytes end exactly at the guard page.
unsafe fn exact(n: usize) -> *mut u8 {
    let body = (n + PAGE - 1) / PAGE * PAGE + if n == 0 { PAGE } else { 0 };
    let p = mmap(0 as *mut u8, body + PAGE, 3, 0x22, -1, 0);
    mprotect(p.add(body), PAGE, 0);
    p.add(body - n)
}

/// The next entry of the tape: kind, length, bytes.  Without one, some bytes.
unsafe fn entry(kind: u8, out: *mut u8, n: usize) {
    let t = tape();
    let mut l = 0usize;
    if t.at + 5 <= t.len { for i in 0..4 { l |= (*t.data.add(t.at + 1 + i) as usize) << (8 * i); } }
    if t.desync || t.at + 5 > t.len || *t.data.add(t.at) != kind || l != n {
        t.desync = true;
        for i in 0..n { *out.add(i) = (i as u8).wrapping_mul(37) | 1; }
        return;
    }
    for i in 0..n { *out.add(i) = *t.data.add(t.at + 5 + i); }
    t.at += 5 + l;
}

#[no_mangle] pub unsafe extern "C" fn vp_any(p: *mut u8, n: usize, kind: u32) { if n > 0 { entry(if kind == 3 { 3 } else { 0 }, p, n) } }
#[no_mangle] pub unsafe extern "C" fn vp_assume(c: u8) { if c == 0 { stop(b"outcome:assumption", 77) } }
#[no_mangle] pub unsafe extern "C" fn vp_fail(p: *const u8, n: usize) -> ! { say(b"fail:", p, n); _exit(101) }
#[no_mangle] pub unsafe extern "C" fn vp_reach(p: *const u8, n: usize) { say(b"reach:", p, n) }
#[no_mangle] pub unsafe extern "C" fn vp_buffer(n: usize, max: usize) -> *mut u8 {
    let mut all = vec![0u8; max];
    if max > 0 { entry(0, all.as_mut_ptr(), max); }
    let p = exact(n);
    for i in 0..n { *p.add(i) = if i < max { all[i] } else { 0 }; }
    p
}
#[no_mangle] pub unsafe extern "C" fn vp_readable(p: *const u8, n: usize) {
    let mut x = 0u8;
    for i in 0..n { x ^= std::ptr::read_volatile(p.add(i)); }
    std::ptr::read_volatile(&x);
}
#[no_mangle] pub unsafe extern "C" fn vp_must_be_zero(p: *const u8, n: usize, label: *const u8, m: usize) {
    for i in 0..n { if std::ptr::read_volatile(p.add(i)) != 0 { vp_fail(label, m) } }
}
#[no_mangle] pub unsafe extern "C" fn vp_zero_when_freed(p: *const u8, n: usize, label: *const u8, m: usize) {
    let (w, k) = (&mut *G.1.get(), &mut *G.2.get());
    if *k < 64 { w[*k] = (p as usize, n, label as usize, m); *k += 1; }
}
#[no_mangle] pub unsafe extern "C" fn vp_record() {}
#[no_mangle] pub unsafe extern "C" fn vp_replay() {}
#[no_mangle] pub unsafe extern "C" fn vp_one_of(n: usize) -> usize { n }
#[no_mangle] pub unsafe extern "C" fn vp_malloc_failed() -> usize { tape().failed }
#[no_mangle] pub unsafe extern "C" fn vp_malloc_size() -> usize { tape().size }
#[no_mangle] pub unsafe extern "C" fn _Znwm(n: usize) -> *mut u8 {
    if tape().active && n > HUGE { stop(b"outcome:huge allocation", 102) }
    guarded(n)
}
#[no_mangle] pub unsafe extern "C" fn vp_alloc_zeroed(n: usize) -> *mut u8 {
    let p = _Znwm(n);
    for i in 0..n { *p.add(i) = 0; }
    p
}
#[no_mangle] pub unsafe extern "C" fn _ZdlPv(p: *mut u8) {
    let (w, k) = (&*G.1.get(), *G.2.get());
    let page = (p as usize & !(PAGE - 1)) as *mut u8;
    let head = page.sub(PAGE);
    let n = *(head as *const usize);
    for i in 0..k {
        let (a, l, label, m) = w[i];
        if a >= p as usize && a < p as usize + n { vp_must_be_zero(a as *const u8, l, label as *const u8, m) }
    }
    let body = (n + PAGE - 1) / PAGE * PAGE;
    mprotect(head, PAGE + body, 0);
}
#[no_mangle] pub unsafe extern "C" fn __wrap_malloc(n: usize) -> *mut u8 {
    let t = tape();
    if !t.foreign { return __real_malloc(n) }
    let mut f = [0u8; 1];
    entry(3, f.as_mut_ptr(), 1);
    t.size = n;
    t.failed = (f[0] != 0) as usize;
    if f[0] != 0 { return 0 as *mut u8 }
    let p = exact(n);
    for i in 0..n { *p.add(i) = 0xa5; }
    p
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let data = std::fs::read(&args[2]).unwrap();
    let t = tape();
    t.data = data.as_ptr();
    t.len = data.len();
    let tables = [lse_harness::c::TABLE, lse_harness::decode::TABLE, lse_harness::erase::TABLE, lse_harness::number::TABLE, lse_harness::flow::TABLE, lse_harness::flow::js::TABLE, lse_harness::js::TABLE, lse_harness::header::TABLE, lse_harness::roster::TABLE];
    for (n, f) in tables.iter().flat_map(|x| x.iter()) {
        if *n == &args[1][..] {
            t.active = true;
            t.foreign = n.starts_with("a_");
            f();
            unsafe { stop(if t.desync { b"outcome:done, with other inputs" } else { b"outcome:done" }, 0) }
        }
    }
    unsafe { stop(b"outcome:no such harness", 78) }
}
