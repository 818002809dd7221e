//! The protocol through the C interface with honest inputs, on the real crates: confirms counterexamples which need a valid proof.
use aeonflux::parameters::SystemParameters;
use c::out;
use credential::c::*;
use prelude::*;
use rand::SeedableRng;
use signal_credential::credential::*;
use signal_credential::issuer::SignalIssuer;
use signal_credential::user::SignalUser;

fn seed(k: u8) -> *const u8 { leak(&[k; 32]) }
fn leak(b: &[u8]) -> *const u8 { Box::leak(b.to_vec().into_boxed_slice()).as_ptr() }
fn must(r: buf_t, n: u64, what: &'static str) -> Vec<u8> {
    match out(r) {
        Some(x) => {
            claim(x.len() as u64 == n, "C20: the buffer has the documented length");
            // Other work must not disturb the buffer.
            let y = x.to_vec();
            let mut z = Vec::new();
            for i in 1..50 { z.push(vec![0x5au8; i * 7]); }
            drop(z);
            claim(&readable(x.as_ptr(), x.len())[..] == &y[..], "C20: the buffer stays as it is");
            y
        },
        None => { claim(false, what); Vec::new() },
    }
}
fn never(r: buf_t, what: &'static str) { claim(r.len == 0 && r.ptr.is_null(), what) }

harnesses! {
    h_header { for k in 1..4 { ::header::honest(k) } reach("done") }
    h_flow {
        for k in 1..4u8 {
            let number: &[u8] = &[[1, 4, 1, 5, 5, 5, 5, 1, 2, 3, 4], [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [9, 8, 7, 6, 5, 4, 3, 2, 1, 0, 9]][k as usize - 1][..(9 + k as usize).min(11)];
            let (np, nn) = (leak(number), number.len() as u64);
            let p = must(system_parameters_create(seed(k)), LENGTH_SYSTEM_PARAMETERS, "C20: system parameters are created");
            claim(p == SystemParameters::hunt_and_peck(&mut SignalRng::from_seed([k; 32])).to_bytes(), "C20: the buffer holds the documented encoding");
            let pp = leak(&p);
            let keys = must(issuer_create(pp, 64, seed(k + 10)), LENGTH_ISSUER_KEYPAIR, "C20: an issuer is created");
            let native = SignalIssuer::create(SystemParameters::from_bytes(&p).unwrap(), &mut SignalRng::from_seed([k + 10; 32]));
            claim(keys == native.issuer.keypair.to_bytes(), "C20: the buffer holds the documented encoding");
            let i = must(issuer_new(pp, 64, leak(&keys), 96), LENGTH_ISSUER, "C20: an issuer is made");
            claim(i == native.to_bytes(), "C20: the buffer holds the documented encoding");
            let ip = leak(&i);
            let ips = must(issuer_get_issuer_parameters(ip, 160), LENGTH_ISSUER_PARAMETERS, "C20: issuer parameters are returned");
            claim(ips == native.get_issuer_parameters().to_bytes(), "C20: the buffer holds the documented encoding");
            let c = must(issuer_issue(ip, 160, np, nn, seed(k + 20)), LENGTH_CREDENTIAL_ISSUANCE, "C20: a credential is issued");
            claim(SignalCredentialIssuance::from_bytes(&c).is_ok(), "C20: the buffer holds a decodable encoding");
            let u = must(user_obtain_finish(np, nn, pp, 64, leak(&ips), 32, leak(&c), 328), LENGTH_USER, "C20: a user obtains its credential");
            claim(SignalUser::from_bytes(&u).is_ok(), "C20: the buffer holds a decodable encoding");
            let e = must(roster_entry_commitment_create(np, nn, pp, 64, seed(k + 30)), 64, "C20: a roster entry is created");
            let ep = leak(&e);
            let s = must(user_show(leak(&u), 288, ep, 64, seed(k + 40)), LENGTH_CREDENTIAL_PRESENTATION, "C20: a credential is shown");
            let v = must(issuer_verify(ip, 160, leak(&s), 448), LENGTH_VERIFIED_CREDENTIAL, "C20: a presentation is verified");
            claim(v == s, "C20: the verified credential is the presentation which was verified");
            let r = must(issuer_verify_roster_membership(ip, 160, leak(&v), 448), 32, "C20: roster membership is verified");
            claim(r[..] == e[..32], "C20: the roster entry returned is the one in the verified credential");
            let r = must(roster_entry_commitment_remove_opening(ep, 64), 32, "C20: an opening is removed");
            claim(r[..] == e[..32], "C20: the buffer holds the documented encoding");
            let o = roster_entry_commitment_open(ep, 64, np, nn, pp, 64);
            claim(o.len == 1 && o.ptr.is_null(), "C20: opening returns length one or zero");
            let mut other = number.to_vec();
            other[2] ^= 1;
            let o = roster_entry_commitment_open(ep, 64, leak(&other), nn, pp, 64);
            claim(o.len == 0 && o.ptr.is_null(), "C20: opening returns length one or zero");
            // Refused proofs.
            for at in &[40usize, 70, 100, 200, 320] {
                let mut bad = c.clone();
                bad[*at] ^= 1;
                never(user_obtain_finish(np, nn, pp, 64, leak(&ips), 32, leak(&bad), 328), "C20: a failure returns length zero and a null pointer");
            }
            never(user_obtain_finish(leak(&other), nn, pp, 64, leak(&ips), 32, leak(&c), 328), "C20: a failure returns length zero and a null pointer");
            for at in 0..448 {
                if at % 31 == 0 {
                    let mut bad = s.clone();
                    bad[at] ^= 1;
                    let x = issuer_verify(ip, 160, leak(&bad), 448);
                    // What the first proof does not cover, the second does.
                    if x.len == 0 { never(x, "C20: a failure returns length zero and a null pointer") }
                    else { never(issuer_verify_roster_membership(ip, 160, leak(&bad), 448), "C20: a failure returns length zero and a null pointer") }
                }
            }
        }
        reach("done");
    }
}

pub mod js {
    use ops;
    use prelude::*;
    use signal_credential::credential::*;
    use signal_credential::user::SignalUser;
    use wasm::js::*;
    use wasm_bindgen::JsValue;

    fn value(b: &[u8]) -> JsValue { JsValue::Bytes(b.to_vec(), None) }
    const SAME: &'static str = "C29: a call gives the result of the native operation on the same bytes";
    const WORKS: &'static str = "C29: a call succeeds if the native operation on the same bytes does";
    const FAILS: &'static str = "C29: a call fails if the native operation on the same bytes does";
    fn bytes(r: JsValue, what: &'static str) -> Vec<u8> {
        match r {
            JsValue::Bytes(b, None) => b,
            _ => { claim(false, what); Vec::new() },
        }
    }
    fn equal(r: JsValue, e: ops::Outcome) -> Vec<u8> {
        match e {
            Some(e) => { let x = bytes(r, WORKS); claim(x == e, SAME); x },
            None => { refused(r); Vec::new() },
        }
    }
    fn refused(r: JsValue) { claim(r == JsValue::Number(0), FAILS) }
    fn must<T>(x: Option<T>) -> T { claim(x.is_some(), WORKS); x.unwrap() }

    harnesses! {
        h_js {
            for k in 1..4u8 {
                let number: &[u8] = &[[1, 4, 1, 5, 5, 5, 5, 1, 2, 3, 4], [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [9, 8, 7, 6, 5, 4, 3, 2, 1, 0, 9]][k as usize - 1][..(9 + k as usize).min(11)];
                let s = |x: u8| [k + x; 32];
                let p = equal(system_parameters_create(&s(0)), ops::parameters_create(&s(0)));
                let keys = equal(issuer_create(value(&p), &s(10)), ops::issuer_create(&p, &s(10)));
                let i = equal(issuer_new(value(&p), value(&keys)), ops::issuer_new(&p, &keys));
                let ips = equal(issuer_get_issuer_parameters(value(&i)), ops::issuer_parameters(&i));
                let c = bytes(issuer_issue(value(&i), number, &s(20)), WORKS);
                claim(SignalCredentialIssuance::from_bytes(&c).is_ok(), SAME);
                claim(c[..ops::FIXED] == must(ops::issue(&i, number, &s(20)))[..ops::FIXED], SAME);
                let u = equal(user_obtain_finish(number, value(&p), value(&ips), value(&c)), ops::obtain_finish(number, &p, &ips, &c));
                claim(SignalUser::from_bytes(&u).is_ok(), WORKS);
                let e = must(ops::entry_create(number, &p, &s(30)));
                let shown = bytes(user_show(value(&u), value(&e), &s(40)), WORKS);
                claim(shown[..ops::FIXED] == must(ops::show(&u, &e, &s(40)))[..ops::FIXED], SAME);
                let v = equal(issuer_verify(value(&i), value(&shown)), ops::verify(&i, &shown));
                claim(v == shown, WORKS);
                let r = equal(issuer_verify_roster_membership(value(&i), value(&v)), ops::verify_roster(&i, &v));
                claim(r.len() > 0, WORKS);
                // Refused proofs.
                let mut other = number.to_vec();
                other[2] ^= 1;
                refused(user_obtain_finish(&other, value(&p), value(&ips), value(&c)));
                for at in &[40usize, 70, 100, 200, 320] {
                    let mut bad = c.clone();
                    bad[*at] ^= 1;
                    refused(user_obtain_finish(number, value(&p), value(&ips), value(&bad)));
                }
                for at in 0..448 {
                    if at % 31 == 0 {
                        let mut bad = shown.clone();
                        bad[at] ^= 1;
                        equal(issuer_verify(value(&i), value(&bad)), ops::verify(&i, &bad));
                        equal(issuer_verify_roster_membership(value(&i), value(&bad)), ops::verify_roster(&i, &bad));
                    }
                }
            }
            reach("done");
        }
    }
}
