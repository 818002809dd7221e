//! Every phone number, from bytes: what is issued for it, and which entries of the roster open to it.
use aeonflux::issuer::IssuerParameters;
use aeonflux::parameters::SystemParameters;
use curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT;
use curve25519_dalek::ristretto::{CompressedRistretto, RistrettoPoint};
use curve25519_dalek::scalar::Scalar;
use prelude::*;
use signal_credential::issuer::SignalIssuer;
use signal_credential::phone_number::*;
use signal_credential::user::SignalUser;

const N: usize = MAX_PHONE_NUMBER_LENGTH;

/// The parameters g, h.  On the real crates, two points; otherwise 0, 1 or 1, 0 in coordinates: everything is decided once for
/// the multiples of h and once for those of g.
fn parameters(of_h: bool) -> SystemParameters {
    if cfg!(feature = "native") {
        let g = RISTRETTO_BASEPOINT_POINT;
        return SystemParameters { g: g, h: g * Scalar::from(0x1234567890abcdefu64) };
    }
    nd::coordinates();
    let f = |x: bool| CompressedRistretto({ let mut b = [0u8; 32]; b[0] = x as u8; b }).decompress().unwrap();
    SystemParameters { g: f(!of_h), h: f(of_h) }
}
fn any_scalar() -> Scalar {
    let b = any!(32);
    let s = Scalar::from_canonical_bytes(b);
    assume(s.is_some());
    s.unwrap()
}
fn at(p: &SystemParameters, m: &Scalar, r: &Scalar) -> RistrettoPoint { p.h * m + p.g * r }

/// Numbers of one of the lengths lo to hi.
fn number(lo: usize, hi: usize) -> &'static [u8] {
    let n = lo + each(hi - lo);
    buffer(n, n)
}
fn create(of_h: bool, n: &[u8]) {
    let p = parameters(of_h);
    match (RosterEntryCommitment::create(n, &p, &mut AnyRng), PhoneNumber::try_from_bytes(n)) {
        (Ok(e), Ok(m)) => {
            reach("created");
            let r = Scalar::from_canonical_bytes({ let mut b = [0u8; 32]; b.copy_from_slice(&e.to_bytes()[32..]); b });
            claim(r.is_some(), "C02: an entry's opening is canonical");
            let c = CommittedPhoneNumber::from_phone_number(&m, &e.opening, &p.g, &p.h);
            claim(e.commitment == c, "C02: the entry created for a number commits to that number");
            claim(e.open(n, &p).is_ok(), "C02: the entry created for a number opens to that number");
        },
        (e, m) => claim(e.is_err() && m.is_err(), "C02: an entry is created exactly for numbers which fit"),
    }
}
fn open(of_h: bool, n: &[u8]) {
    let p = parameters(of_h);
    let (s, r, q) = (any_scalar(), any_scalar(), any_scalar());
    let c = CommittedPhoneNumber::from_phone_number(&PhoneNumber(s), &r.into(), &p.g, &p.h);
    let e = RosterEntryCommitment { commitment: c, opening: q.into() };
    let opened = e.open(n, &p).is_ok();
    match PhoneNumber::try_from_bytes(n) {
        Ok(m) => {
            if opened { reach("opened") } else { reach("refused") }
            claim(opened == (at(&p, &s, &r) == at(&p, &m.0, &q)), "C02: an entry opens exactly to the number it commits to");
        },
        Err(_) => {
            reach("does not fit");
            claim(!opened, "C02: an entry opens to no number which does not fit");
        },
    }
}
/// What a user made for one number has, and what an issuer certifies for another.
fn issue(n: &[u8]) {
    let i = SignalIssuer::from_bytes(buffer(160, 160));
    let x = IssuerParameters::from_bytes(buffer(32, 32));
    assume(i.is_ok() && x.is_ok());
    let i = i.unwrap();
    let m = PhoneNumber::try_from_bytes(n);
    match (&SignalUser::new(i.issuer.system_parameters, x.unwrap(), None, n), &m) {
        (Ok(u), Ok(m)) => {
            reach("user");
            claim(u.phone_number == *m, "C02: a user has the number it was made for");
        },
        (u, m) => claim(u.is_err() && m.is_err(), "C02: a user is made exactly for numbers which fit"),
    }
    match (&i.issue(n, &mut AnyRng), &m) {
        (Ok(c), Ok(m)) => {
            reach("issued");
            claim(c.credential.attributes.len() == 1, "C02: a credential certifies one attribute");
            claim(c.credential.attributes[0] == m.0, "C02: a credential certifies the number it was issued for");
        },
        (Err(_), Ok(_)) => claim(cfg!(not(feature = "native")), "C02: a credential is issued for every number which fits"),
        (c, m) => claim(c.is_err() && m.is_err(), "C02: a credential is issued exactly for numbers which fit"),
    }
}
fn different(lo: usize, hi: usize) {
    let (a, b) = (number(lo, hi), number(1, N));
    if let (Ok(x), Ok(y)) = (PhoneNumber::try_from_bytes(a), PhoneNumber::try_from_bytes(b)) {
        if x == y {
            reach("equal");
            same(a, b, "C02: different numbers are different attributes");
        }
    }
}
fn wide() -> &'static [u8] {
    let n = [1 << 8, 1 << 16][each(1)] + [0, 1, 11, N][each(3)];
    buffer(n, n)
}

harnesses! {
    r_create_g_1 { create(false, number(0, 13)) }
    r_create_g_2 { create(false, number(14, N + 3)) }
    r_create_h_1 { create(true, number(0, 13)) }
    r_create_h_2 { create(true, number(14, N + 3)) }
    r_open_g_1 { open(false, number(0, 13)) }
    r_open_g_2 { open(false, number(14, N + 3)) }
    r_open_h_1 { open(true, number(0, 13)) }
    r_open_h_2 { open(true, number(14, N + 3)) }
    r_create_wide { create(true, wide()); reach("done") }
    r_open_wide { open(true, wide()) }
    r_issue_1 { issue(number(0, 10)) }
    r_issue_2 { issue(number(11, 20)) }
    r_issue_3 { issue(number(21, N + 3)) }
    r_issue_wide { issue(wide()); reach("done") }
    r_different_1 { different(1, 9) }
    r_different_2 { different(10, 18) }
    r_different_3 { different(19, N) }
}
