//! The C interface.
use credential::c::*;
use ops;
use prelude::*;
use signal_credential::phone_number::RosterEntryCommitment;

/// A pointer and a length as a caller may give them: null, empty or any bytes.
struct In { p: *const u8, n: u64, b: &'static [u8] }
fn input(max: usize) -> In {
    let b = any_buffer(max);
    In { p: b.as_ptr(), n: b.len() as u64, b }
}
/// The same, of the right length unless `vary`.
fn sized(n: usize, vary: bool) -> In {
    if vary { input(n + 33) } else {
        let b = buffer(n, n);
        In { p: b.as_ptr(), n: n as u64, b }
    }
}
pub fn seed() -> *const u8 {
    let b = buffer(32, 32);
    b.as_ptr()
}
/// What a call returned: nothing, or a buffer.
pub fn out(r: buf_t) -> Option<&'static [u8]> {
    if r.len == 0 {
        claim(r.ptr.is_null(), "C20: a failure returns a null pointer");
        return None;
    }
    claim(!r.ptr.is_null(), "C20: a buffer of non-zero length is not null");
    Some(readable(r.ptr, r.len as usize))
}
fn expect(r: buf_t, e: Option<Vec<u8>>) { expect_fixed(r, e, !0) }
/// What the native operation on the same bytes gives.
fn expect_fixed(r: buf_t, e: Option<Vec<u8>>, fixed: usize) {
    match (out(r), e) {
        (Some(x), Some(y)) => {
            reach("returned");
            ops::same_result(x, &y, fixed, "C20: the buffer holds the documented encoding");
        },
        (None, None) => reach("refused"),
        (Some(_), None) => claim(false, "C20: a failure returns length zero and a null pointer"),
        (None, Some(_)) => claim(false, "C20: a call which succeeds returns a buffer"),
    }
}
/// Nothing can be read from no bytes at all.
fn given(all: &[&In]) -> bool { all.iter().all(|x| x.n > 0) }
fn null(r: buf_t) { claim(r.len == 0 && r.ptr.is_null(), "C20: an argument which cannot be used returns length zero and a null pointer"); reach("refused") }
fn length(r: &buf_t, n: u64) { claim(r.len == 0 || r.len == n, "C20: the buffer has the documented length") }
fn bytes(seed: *const u8) -> &'static [u8] { unsafe { ::std::slice::from_raw_parts(seed, 32) } }

fn parameters_create() {
    let s = seed();
    record();
    let r = system_parameters_create(s);
    replay();
    length(&r, LENGTH_SYSTEM_PARAMETERS);
    expect(r, ops::parameters_create(bytes(s)))
}
fn create(vary: bool) {
    let (p, s) = (sized(64, vary), seed());
    record();
    let r = issuer_create(p.p, p.n, s);
    replay();
    length(&r, LENGTH_ISSUER_KEYPAIR);
    expect(r, if given(&[&p]) { ops::issuer_create(p.b, bytes(s)) } else { None })
}
fn new(vp: bool, vk: bool) {
    let (p, k) = (sized(64, vp), sized(96, vk));
    record();
    let r = issuer_new(p.p, p.n, k.p, k.n);
    replay();
    if k.n == 96 { length(&r, LENGTH_ISSUER) }
    expect(r, if given(&[&p, &k]) { ops::issuer_new(p.b, k.b) } else { None })
}
fn get(vary: bool) {
    let i = sized(160, vary);
    record();
    let r = issuer_get_issuer_parameters(i.p, i.n);
    replay();
    if i.n == 160 { length(&r, LENGTH_ISSUER_PARAMETERS) }
    expect(r, if given(&[&i]) { ops::issuer_parameters(i.b) } else { None })
}
fn issue(vi: bool, number: usize) {
    let (i, n, s) = (sized(160, vi), input(number), seed());
    record();
    let r = issuer_issue(i.p, i.n, n.p, n.n, s);
    replay();
    length(&r, LENGTH_CREDENTIAL_ISSUANCE);
    expect_fixed(r, if given(&[&i, &n]) { ops::issue(i.b, n.b, bytes(s)) } else { None }, ops::FIXED)
}
fn verify(vi: bool, vp: bool) {
    let (i, p) = (sized(160, vi), sized(448, vp));
    record();
    let r = issuer_verify(i.p, i.n, p.p, p.n);
    replay();
    length(&r, LENGTH_VERIFIED_CREDENTIAL);
    if let Some(x) = out(buf_t { len: r.len, ptr: r.ptr }) {
        same(x, p.b, "C20: the verified credential is the presentation which was verified");
    }
    expect(r, if given(&[&i, &p]) { ops::verify(i.b, p.b) } else { None })
}
fn verify_roster(vi: bool, vp: bool) {
    let (i, p) = (sized(160, vi), sized(448, vp));
    record();
    let r = issuer_verify_roster_membership(i.p, i.n, p.p, p.n);
    replay();
    length(&r, 32);
    if let Some(x) = out(buf_t { len: r.len, ptr: r.ptr }) {
        claim(p.n >= 32, "C20: undecodable input returns length zero and a null pointer");
        same(x, &p.b[..32], "C20: the roster entry returned is the one in the verified credential");
    }
    expect(r, if given(&[&i, &p]) { ops::verify_roster(i.b, p.b) } else { None })
}
fn obtain_finish(vn: usize, vp: bool, vi: bool, vc: bool) {
    let (n, p, i, c) = (input(vn), sized(64, vp), sized(32, vi), sized(328, vc));
    record();
    let r = user_obtain_finish(n.p, n.n, p.p, p.n, i.p, i.n, c.p, c.n);
    replay();
    if i.n == 32 { length(&r, LENGTH_USER) }
    expect(r, if given(&[&n, &p, &i, &c]) { ops::obtain_finish(n.b, p.b, i.b, c.b) } else { None })
}
fn show(vu: bool, ve: bool) {
    let (u, e, s) = (sized(288, vu), sized(64, ve), seed());
    record();
    let r = user_show(u.p, u.n, e.p, e.n, s);
    replay();
    length(&r, LENGTH_CREDENTIAL_PRESENTATION);
    expect_fixed(r, if given(&[&u, &e]) { ops::show(u.b, e.b, bytes(s)) } else { None }, ops::FIXED)
}
fn entry_create(vn: usize, vp: bool) {
    let (n, p, s) = (input(vn), sized(64, vp), seed());
    record();
    let r = roster_entry_commitment_create(n.p, n.n, p.p, p.n, s);
    replay();
    length(&r, 64);
    expect(r, if given(&[&n, &p]) { ops::entry_create(n.b, p.b, bytes(s)) } else { None })
}
fn remove(vary: bool) {
    let e = sized(64, vary);
    record();
    let r = roster_entry_commitment_remove_opening(e.p, e.n);
    replay();
    expect(r, RosterEntryCommitment::from_bytes(e.b).ok().map(|_| e.b[..32].to_vec()))
}
fn open(vn: usize, ve: bool, vp: bool) {
    let (e, n, p) = (sized(64, ve), input(vn), sized(64, vp));
    record();
    let r = roster_entry_commitment_open(e.p, e.n, n.p, n.n, p.p, p.n);
    replay();
    claim(r.ptr.is_null(), "C20: opening returns a null pointer");
    claim(r.len <= 1, "C20: opening returns length one or zero");
    claim((r.len == 1) == (given(&[&e, &n, &p]) && ops::entry_open(e.b, n.b, p.b)), "C20: opening returns length one exactly if the entry opens");
    if r.len == 1 { reach("returned") } else { reach("refused") }
}

fn right(n: usize) -> In { sized(n, false) }
struct Wide(usize);
impl Wide { fn of(&self, n: usize) -> In { right(n + self.0) } }
fn with<F: Fn(Wide)>(f: F) { if each(1) == 0 { f(Wide(1 << 8)) } else { f(Wide(1 << 16)) } }

harnesses! {
    f_parameters_create { parameters_create() }
    f_issuer_create { create(false) }
    f_issuer_create_hostile { create(true) }
    f_issuer_new { new(false, false) }
    f_issuer_new_hostile_a { new(true, false) }
    f_issuer_new_hostile_b { new(false, true) }
    f_get_parameters { get(false) }
    f_get_parameters_hostile { get(true) }
    f_issue { issue(false, 28) }
    f_issue_hostile { issue(true, 2) }
    f_verify { verify(false, false) }
    f_verify_hostile_a { verify(true, false) }
    f_verify_hostile_b { verify(false, true) }
    f_verify_roster { verify_roster(false, false) }
    f_verify_roster_hostile_a { verify_roster(true, false) }
    f_verify_roster_hostile_b { verify_roster(false, true) }
    f_obtain_finish { obtain_finish(28, false, false, false) }
    f_obtain_finish_hostile_a { obtain_finish(2, true, false, false) }
    f_obtain_finish_hostile_b { obtain_finish(2, false, true, false) }
    f_obtain_finish_hostile_c { obtain_finish(2, false, false, true) }
    f_show { show(false, false) }
    f_show_hostile_a { show(true, false) }
    f_show_hostile_b { show(false, true) }
    f_entry_create { entry_create(28, false) }
    f_entry_create_hostile { entry_create(2, true) }
    f_remove { remove(false) }
    f_remove_hostile { remove(true) }
    f_open { open(28, false, false) }
    f_open_hostile_a { open(2, true, false) }
    f_open_hostile_b { open(2, false, true) }
    // Lengths which equal the right one modulo 2^8 and 2^16.
    f_wide_a { with(|w| match each(4) {
        0 => { let (p, s) = (w.of(64), seed()); null(issuer_create(p.p, p.n, s)) },
        1 => { let (p, k) = (w.of(64), right(96)); null(issuer_new(p.p, p.n, k.p, k.n)) },
        2 => { let (i, n, s) = (right(160), w.of(11), seed()); null(issuer_issue(i.p, i.n, n.p, n.n, s)) },
        3 => { let (i, p) = (right(160), w.of(448)); null(issuer_verify(i.p, i.n, p.p, p.n)) },
        _ => { let (i, p) = (right(160), w.of(448)); null(issuer_verify_roster_membership(i.p, i.n, p.p, p.n)) },
    }) }
    f_wide_b { with(|w| match each(3) {
        0 => { let (n, p, i, c) = (w.of(11), right(64), right(32), right(328)); null(user_obtain_finish(n.p, n.n, p.p, p.n, i.p, i.n, c.p, c.n)) },
        1 => { let (n, p, i, c) = (right(11), w.of(64), right(32), right(328)); null(user_obtain_finish(n.p, n.n, p.p, p.n, i.p, i.n, c.p, c.n)) },
        2 => { let (n, p, i, c) = (right(11), right(64), right(32), w.of(328)); null(user_obtain_finish(n.p, n.n, p.p, p.n, i.p, i.n, c.p, c.n)) },
        _ => { let (u, e, s) = (w.of(288), right(64), seed()); null(user_show(u.p, u.n, e.p, e.n, s)) },
    }) }
    f_wide_c { with(|w| match each(6) {
        0 => { let (u, e, s) = (right(288), w.of(64), seed()); null(user_show(u.p, u.n, e.p, e.n, s)) },
        1 => { let (n, p, s) = (w.of(11), right(64), seed()); null(roster_entry_commitment_create(n.p, n.n, p.p, p.n, s)) },
        2 => { let (n, p, s) = (right(11), w.of(64), seed()); null(roster_entry_commitment_create(n.p, n.n, p.p, p.n, s)) },
        3 => { let e = w.of(64); null(roster_entry_commitment_remove_opening(e.p, e.n)) },
        4 => { let (e, n, p) = (w.of(64), right(11), right(64)); null(roster_entry_commitment_open(e.p, e.n, n.p, n.n, p.p, p.n)) },
        5 => { let (e, n, p) = (right(64), w.of(11), right(64)); null(roster_entry_commitment_open(e.p, e.n, n.p, n.n, p.p, p.n)) },
        _ => { let (e, n, p) = (right(64), right(11), w.of(64)); null(roster_entry_commitment_open(e.p, e.n, n.p, n.n, p.p, p.n)) },
    }) }
    // Null pointers, with any length.
    f_null {
        let (p, k, i, s, u, e, c, n, x) = (buffer(64, 64).as_ptr(), buffer(96, 96).as_ptr(), buffer(160, 160).as_ptr(), seed(), buffer(288, 288).as_ptr(),
                                        buffer(64, 64).as_ptr(), buffer(328, 328).as_ptr(), buffer(11, 11).as_ptr(), buffer(448, 448).as_ptr());
        // Not a null pointer which the optimizer knows.
        let z = each(0) as *const u8;
        let l = any_usize(!0) as u64;
        let ip = buffer(32, 32).as_ptr();
        null(match each(26) {
            0 => system_parameters_create(z),
            1 => issuer_create(z, l, s),
            2 => issuer_create(p, 64, z),
            3 => issuer_new(z, l, k, 96),
            4 => issuer_new(p, 64, z, l),
            5 => issuer_get_issuer_parameters(z, l),
            6 => issuer_issue(z, l, n, 11, s),
            7 => issuer_issue(i, 160, z, l, s),
            8 => issuer_issue(i, 160, n, 11, z),
            9 => issuer_verify(z, l, x, 448),
            10 => issuer_verify(i, 160, z, l),
            11 => issuer_verify_roster_membership(z, l, x, 448),
            12 => issuer_verify_roster_membership(i, 160, z, l),
            13 => user_obtain_finish(z, l, p, 64, ip, 32, c, 328),
            14 => user_obtain_finish(n, 11, z, l, ip, 32, c, 328),
            15 => user_obtain_finish(n, 11, p, 64, z, l, c, 328),
            16 => user_obtain_finish(n, 11, p, 64, ip, 32, z, l),
            17 => user_show(z, l, e, 64, s),
            18 => user_show(u, 288, z, l, s),
            19 => user_show(u, 288, e, 64, z),
            20 => roster_entry_commitment_create(z, l, p, 64, s),
            21 => roster_entry_commitment_create(n, 11, z, l, s),
            22 => roster_entry_commitment_create(n, 11, p, 64, z),
            23 => roster_entry_commitment_open(z, l, n, 11, p, 64),
            24 => roster_entry_commitment_open(e, 64, z, l, p, 64),
            25 => roster_entry_commitment_open(e, 64, n, 11, z, l),
            _ => roster_entry_commitment_remove_opening(z, l),
        })
    }
}
