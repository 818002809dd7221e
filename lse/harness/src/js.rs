//! The JavaScript interface, with `JsValue`s made of any bytes.
use ops;
use prelude::*;
use wasm::js::*;
use wasm_bindgen::JsValue;

/// A value from JavaScript, and the bytes it stands for, if any.
struct In { v: JsValue, b: Option<&'static [u8]> }
impl In {
    fn take(&mut self) -> JsValue { ::std::mem::replace(&mut self.v, JsValue::Null) }
}
fn bytes(n: usize) -> In {
    let b = buffer(n, n);
    In { v: JsValue::Bytes(b.to_vec(), None), b: Some(b) }
}
/// A value which should be `n` bytes.
fn value(n: usize, vary: bool) -> In {
    if !vary { return bytes(n); }
    match each(11) {
        0 => bytes(0),
        1 => bytes(1),
        2 => bytes(n - 32),
        3 => bytes(n - 1),
        4 => bytes(n + 1),
        5 => bytes(n + 32),
        6 => In { v: JsValue::Bytes(buffer(n, n).to_vec(), Some(0)), b: None },
        7 => In { v: JsValue::Bytes(buffer(n, n).to_vec(), Some(n - 1)), b: None },
        8 => In { v: JsValue::Other, b: None },
        9 => In { v: JsValue::Number(0), b: None },
        10 => In { v: JsValue::Null, b: None },
        _ => In { v: JsValue::Bool(true), b: None },
    }
}
/// A byte array from JavaScript.
fn seed(vary: bool) -> &'static [u8] { if vary { any_buffer(34) } else { buffer(32, 32) } }
fn both(r: JsValue, e: ops::Outcome, fixed: usize) {
    match r {
        JsValue::Bytes(x, None) => match e {
            Some(y) => {
                reach("returned");
                ops::same_result(&x, &y, fixed, "C29: a call gives the result of the native operation on the same bytes");
            },
            None => claim(false, "C29: a call fails if the native operation on the same bytes does"),
        },
        JsValue::Number(0) => {
            claim(e.is_none(), "C29: a call succeeds if the native operation on the same bytes does");
            reach("refused");
        },
        _ => claim(false, "C29: a call returns an object or the error value"),
    }
}
macro_rules! get { ($x:expr) => { match $x.b { Some(b) => b, None => return None } } }

fn parameters_create(vary: bool) {
    let s = seed(vary);
    record();
    let r = system_parameters_create(s);
    replay();
    both(r, if s.len() == 32 { ops::parameters_create(s) } else { None }, !0)
}
fn create(vp: bool, vs: bool) {
    let (mut p, s) = (value(64, vp), seed(vs));
    record();
    let r = issuer_create(p.take(), s);
    replay();
    both(r, (|| { let p = get!(p); if s.len() == 32 { ops::issuer_create(p, s) } else { None } })(), !0)
}
fn parameters(vi: bool) {
    let mut i = value(160, vi);
    record();
    let r = issuer_get_issuer_parameters(i.take());
    replay();
    both(r, (|| ops::issuer_parameters(get!(i)))(), !0)
}
fn new(vp: bool, vk: bool) {
    let (mut p, mut k) = (value(64, vp), value(96, vk));
    record();
    let r = issuer_new(p.take(), k.take());
    replay();
    both(r, (|| ops::issuer_new(get!(p), get!(k)))(), !0)
}
fn issue(vi: bool, number: usize, vs: bool) {
    let (mut i, n, s) = (value(160, vi), any_buffer(number), seed(vs));
    record();
    let r = issuer_issue(i.take(), n, s);
    replay();
    both(r, (|| { let i = get!(i); if s.len() == 32 { ops::issue(i, n, s) } else { None } })(), ops::FIXED)
}
fn verify(vi: bool, vp: bool) {
    let (mut i, mut p) = (value(160, vi), value(448, vp));
    record();
    let r = issuer_verify(i.take(), p.take());
    replay();
    both(r, (|| ops::verify(get!(i), get!(p)))(), !0)
}
fn verify_roster(vi: bool, vp: bool) {
    let (mut i, mut p) = (value(160, vi), value(448, vp));
    record();
    let r = issuer_verify_roster_membership(i.take(), p.take());
    replay();
    both(r, (|| ops::verify_roster(get!(i), get!(p)))(), !0)
}
fn obtain_finish(number: usize, vp: bool, vi: bool, vc: bool) {
    let (n, mut p, mut i, mut c) = (any_buffer(number), value(64, vp), value(32, vi), value(328, vc));
    record();
    let r = user_obtain_finish(n, p.take(), i.take(), c.take());
    replay();
    both(r, (|| ops::obtain_finish(n, get!(p), get!(i), get!(c)))(), !0)
}
fn show(vu: bool, ve: bool, vs: bool) {
    let (mut u, mut e, s) = (value(288, vu), value(64, ve), seed(vs));
    record();
    let r = user_show(u.take(), e.take(), s);
    replay();
    both(r, (|| { let (u, e) = (get!(u), get!(e)); if s.len() == 32 { ops::show(u, e, s) } else { None } })(), ops::FIXED)
}

harnesses! {
    j_parameters_create { parameters_create(true) }
    j_issuer_create { create(false, true) }
    j_issuer_create_hostile { create(true, false) }
    j_get_parameters { parameters(false) }
    j_get_parameters_hostile { parameters(true) }
    j_issuer_new { new(false, false) }
    j_issuer_new_hostile_a { new(true, false) }
    j_issuer_new_hostile_b { new(false, true) }
    j_issue { issue(false, 28, true) }
    j_issue_hostile { issue(true, 2, false) }
    j_verify { verify(false, false) }
    j_verify_hostile_a { verify(true, false) }
    j_verify_hostile_b { verify(false, true) }
    j_verify_roster { verify_roster(false, false) }
    j_verify_roster_hostile_a { verify_roster(true, false) }
    j_verify_roster_hostile_b { verify_roster(false, true) }
    j_obtain_finish { obtain_finish(16, false, false, false) }
    j_obtain_finish_hostile_a { obtain_finish(2, true, false, false) }
    j_obtain_finish_hostile_b { obtain_finish(2, false, true, false) }
    j_obtain_finish_hostile_c { obtain_finish(2, false, false, true) }
    j_show { show(false, false, true) }
    j_show_hostile_a { show(true, false, false) }
    j_show_hostile_b { show(false, true, false) }
}
