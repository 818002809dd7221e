//! A C program which calls the interface as its header says.
use credential::c::*;
use ops;
use prelude::*;

type P = *const u8;
type In = (P, u64, &'static [u8]);
extern "C" {
    fn c_length(which: u32) -> u64;
    fn c_system_parameters_create(seed: P, len: &mut u64, ptr: &mut P);
    fn c_issuer_create(p: P, pn: u64, seed: P, len: &mut u64, ptr: &mut P);
    fn c_issuer_new(p: P, pn: u64, k: P, kn: u64, len: &mut u64, ptr: &mut P);
    fn c_issuer_get_issuer_parameters(i: P, n: u64, len: &mut u64, ptr: &mut P);
    fn c_issuer_issue(i: P, n: u64, number: P, nn: u64, seed: P, len: &mut u64, ptr: &mut P);
    fn c_issuer_verify(i: P, n: u64, p: P, pn: u64, len: &mut u64, ptr: &mut P);
    fn c_issuer_verify_roster_membership(i: P, n: u64, v: P, vn: u64, len: &mut u64, ptr: &mut P);
    fn c_user_obtain_finish(number: P, nn: u64, p: P, pn: u64, i: P, n: u64, c: P, cn: u64, len: &mut u64, ptr: &mut P);
    fn c_user_show(u: P, un: u64, e: P, en: u64, seed: P, len: &mut u64, ptr: &mut P);
    fn c_roster_entry_commitment_create(number: P, nn: u64, p: P, pn: u64, seed: P, len: &mut u64, ptr: &mut P);
    fn c_roster_entry_commitment_remove_opening(e: P, en: u64, len: &mut u64, ptr: &mut P);
    fn c_roster_entry_commitment_open(e: P, en: u64, number: P, nn: u64, p: P, pn: u64, len: &mut u64, ptr: &mut P);
}
/// Any bytes, as many as the header gives for one kind of object.
fn any(which: u32) -> In {
    let n = unsafe { c_length(which) };
    let b = buffer(n as usize, 512);
    (b.as_ptr(), n, b)
}
const SEED: u32 = 0;
const PARAMETERS: u32 = 1;
const ISSUER: u32 = 2;
const ISSUER_PARAMETERS: u32 = 3;
const KEYPAIR: u32 = 4;
const USER: u32 = 5;
const ISSUANCE: u32 = 6;
const PRESENTATION: u32 = 7;
const VERIFIED: u32 = 8;
const ENTRY: u32 = 9;
const COMMITMENT: u32 = 10;
const SAME: &'static str = "C31: a call through the header does what the header says";
/// What a C program gets, what the operation gives on the same bytes, and the length which the header states for it.  (How much of a result
/// with a proof is the same every time is as in `ops`.)
fn both(len: u64, ptr: P, r: ops::Outcome, which: u32, fixed: usize) {
    let r = match r {
        Some(r) => r,
        None => {
            claim(len == 0 && ptr.is_null(), SAME);
            reach("refused");
            return;
        },
    };
    claim(len == r.len() as u64 && !ptr.is_null(), SAME);
    reach("returned");
    claim(len == unsafe { c_length(which) }, "C31: a buffer has the length which the header states");
    ops::same_result(readable(ptr, len as usize), &r, fixed, SAME);
}
macro_rules! call { ($which:expr, $fixed:expr, $c:ident($($a:expr),*), $r:expr) => { {
    let (mut len, mut ptr) = (77u64, 8 as P);
    record();
    unsafe { $c($($a,)* &mut len, &mut ptr) }
    replay();
    both(len, ptr, $r, $which, $fixed)
} } }
fn number(max: usize) -> In {
    let b = any_buffer(max);
    (b.as_ptr(), b.len() as u64, b)
}
fn the_seed() -> In {
    let n = unsafe { c_length(SEED) };
    claim(n == 32, "C31: the header gives the length of a seed");
    let b = buffer(32, 32);
    (b.as_ptr(), n, b)
}
/// Nothing can be read from no bytes at all.
fn given(n: &In, r: &Fn() -> ops::Outcome) -> ops::Outcome { if n.1 == 0 { None } else { r() } }

/// Honest inputs of every call, compared in the same way (on the real crates).
#[cfg(feature = "native")]
pub fn honest(k: u8) {
    let l = |b: &[u8]| -> In { let b: &'static [u8] = Box::leak(b.to_vec().into_boxed_slice()); (b.as_ptr(), b.len() as u64, b) };
    let s = |x: u8| l(&[k + x; 32]);
    let (n, other) = (l(&[1u8, 4, 1, 5, 5, 5, 5, 1, 2, 3, k]), l(&[1u8, 4, 1, 5, 5, 5, 5, 1, 2, 4, k]));
    let (s0, s1, s2, s3, s4) = (s(0), s(1), s(2), s(3), s(4));
    let p = l(&ops::parameters_create(s0.2).unwrap());
    let keys = l(&ops::issuer_create(p.2, s1.2).unwrap());
    let i = l(&ops::issuer_new(p.2, keys.2).unwrap());
    let ips = l(&ops::issuer_parameters(i.2).unwrap());
    let c = l(&ops::issue(i.2, n.2, s2.2).unwrap());
    let u = l(&ops::obtain_finish(n.2, p.2, ips.2, c.2).unwrap());
    let e = l(&ops::entry_create(n.2, p.2, s3.2).unwrap());
    let x = l(&ops::show(u.2, e.2, s4.2).unwrap());
    let v = l(&ops::verify(i.2, x.2).unwrap());
    call!(PARAMETERS, !0, c_system_parameters_create(s0.0), ops::parameters_create(s0.2));
    call!(KEYPAIR, !0, c_issuer_create(p.0, p.1, s1.0), ops::issuer_create(p.2, s1.2));
    call!(ISSUER, !0, c_issuer_new(p.0, p.1, keys.0, keys.1), ops::issuer_new(p.2, keys.2));
    call!(ISSUER_PARAMETERS, !0, c_issuer_get_issuer_parameters(i.0, i.1), ops::issuer_parameters(i.2));
    call!(ISSUANCE, ops::FIXED, c_issuer_issue(i.0, i.1, n.0, n.1, s2.0), ops::issue(i.2, n.2, s2.2));
    call!(VERIFIED, !0, c_issuer_verify(i.0, i.1, x.0, x.1), ops::verify(i.2, x.2));
    call!(COMMITMENT, !0, c_issuer_verify_roster_membership(i.0, i.1, v.0, v.1), ops::verify_roster(i.2, v.2));
    call!(USER, !0, c_user_obtain_finish(n.0, n.1, p.0, p.1, ips.0, ips.1, c.0, c.1), ops::obtain_finish(n.2, p.2, ips.2, c.2));
    call!(PRESENTATION, ops::FIXED, c_user_show(u.0, u.1, e.0, e.1, s4.0), ops::show(u.2, e.2, s4.2));
    call!(ENTRY, !0, c_roster_entry_commitment_create(n.0, n.1, p.0, p.1, s3.0), ops::entry_create(n.2, p.2, s3.2));
    call!(COMMITMENT, !0, c_roster_entry_commitment_remove_opening(e.0, e.1), ops::entry_remove(e.2));
    for (m, opens) in &[(n, 1), (other, 0)] {
        let (mut len, mut ptr) = (77u64, 8 as P);
        unsafe { c_roster_entry_commitment_open(e.0, e.1, m.0, m.1, p.0, p.1, &mut len, &mut ptr) }
        claim(len == *opens && ptr.is_null(), SAME);
    }
}

harnesses! {
    k_lengths {
        let n = |k| unsafe { c_length(k) };
        for (k, l) in &[(SEED, LENGTH_SEED as u64), (PARAMETERS, LENGTH_SYSTEM_PARAMETERS), (ISSUER, LENGTH_ISSUER), (ISSUER_PARAMETERS, LENGTH_ISSUER_PARAMETERS),
                        (KEYPAIR, LENGTH_ISSUER_KEYPAIR), (USER, LENGTH_USER), (ISSUANCE, LENGTH_CREDENTIAL_ISSUANCE),
                        (PRESENTATION, LENGTH_CREDENTIAL_PRESENTATION), (VERIFIED, LENGTH_VERIFIED_CREDENTIAL)] {
            claim(n(*k) == *l, "C31: the header gives the same lengths as the library");
        }
        reach("done");
    }
    k_parameters_create { let s = the_seed(); call!(PARAMETERS, !0, c_system_parameters_create(s.0), ops::parameters_create(s.2)) }
    k_issuer_create { let (p, s) = (any(PARAMETERS), the_seed()); call!(KEYPAIR, !0, c_issuer_create(p.0, p.1, s.0), ops::issuer_create(p.2, s.2)) }
    k_issuer_new { let (p, k) = (any(PARAMETERS), any(KEYPAIR)); call!(ISSUER, !0, c_issuer_new(p.0, p.1, k.0, k.1), ops::issuer_new(p.2, k.2)) }
    k_get_parameters { let i = any(ISSUER); call!(ISSUER_PARAMETERS, !0, c_issuer_get_issuer_parameters(i.0, i.1), ops::issuer_parameters(i.2)) }
    k_issue {
        let (i, n, s) = (any(ISSUER), number(13), the_seed());
        call!(ISSUANCE, ops::FIXED, c_issuer_issue(i.0, i.1, n.0, n.1, s.0), given(&n, &|| ops::issue(i.2, n.2, s.2)))
    }
    k_verify { let (i, p) = (any(ISSUER), any(PRESENTATION)); call!(VERIFIED, !0, c_issuer_verify(i.0, i.1, p.0, p.1), ops::verify(i.2, p.2)) }
    k_verify_roster {
        let (i, v) = (any(ISSUER), any(VERIFIED));
        call!(COMMITMENT, !0, c_issuer_verify_roster_membership(i.0, i.1, v.0, v.1), ops::verify_roster(i.2, v.2))
    }
    k_obtain_finish {
        let (n, p, i, c) = (number(4), any(PARAMETERS), any(ISSUER_PARAMETERS), any(ISSUANCE));
        call!(USER, !0, c_user_obtain_finish(n.0, n.1, p.0, p.1, i.0, i.1, c.0, c.1), given(&n, &|| ops::obtain_finish(n.2, p.2, i.2, c.2)))
    }
    k_show {
        let (u, e, s) = (any(USER), any(ENTRY), the_seed());
        call!(PRESENTATION, ops::FIXED, c_user_show(u.0, u.1, e.0, e.1, s.0), ops::show(u.2, e.2, s.2))
    }
    k_entry_create {
        let (n, p, s) = (number(13), any(PARAMETERS), the_seed());
        call!(ENTRY, !0, c_roster_entry_commitment_create(n.0, n.1, p.0, p.1, s.0), given(&n, &|| ops::entry_create(n.2, p.2, s.2)))
    }
    k_remove {
        let e = any(ENTRY);
        call!(COMMITMENT, !0, c_roster_entry_commitment_remove_opening(e.0, e.1), ops::entry_remove(e.2))
    }
    k_open {
        let (e, n, p) = (any(ENTRY), number(13), any(PARAMETERS));
        let (mut len, mut ptr) = (77u64, 8 as P);
        record();
        unsafe { c_roster_entry_commitment_open(e.0, e.1, n.0, n.1, p.0, p.1, &mut len, &mut ptr) }
        replay();
        claim(len <= 1 && ptr.is_null(), "C31: opening gives one or zero, and no buffer");
        claim((len == 1) == (n.1 > 0 && ops::entry_open(e.2, n.2, p.2)), SAME);
        if len == 1 { reach("returned") } else { reach("refused") }
    }
}
