//! Phone numbers.
use prelude::*;
use signal_credential::phone_number::*;

const N: usize = MAX_PHONE_NUMBER_LENGTH;

/// Text of which every byte is ASCII, except that it may have one character of two bytes.
fn text(n: usize, max: usize) -> String {
    let mut v = buffer(n, max).to_vec();
    let at = any_usize(max);
    let two = at + 1 < n;
    if two {
        assume(v[at] >= 0xc2 && v[at] <= 0xdf && v[at + 1] >= 0x80 && v[at + 1] <= 0xbf);
    }
    for i in 0..n {
        if !(two && (i == at || i == at + 1)) { assume(v[i] < 0x80); }
    }
    unsafe { String::from_utf8_unchecked(v) }
}
fn digit(b: u8) -> bool { b >= 48 && b <= 57 }

/// A decimal text of n digits.
fn digits(n: usize) -> String {
    let v = buffer(n, n).to_vec();
    for i in 0..n { assume(digit(v[i])); }
    unsafe { String::from_utf8_unchecked(v) }
}
fn bytes_of(x: &PhoneNumber) -> [u8; 32] { x.0.to_bytes() }

fn round_trip(lo: usize, hi: usize) {
    let n = lo + each(hi - lo);
    let s = digits(n);
    let expected = s.as_bytes().to_vec();
    match PhoneNumber::try_from_string(&s) {
        Ok(x) => {
            reach("accepted");
            let t = String::from(x);
            same(t.as_bytes(), &expected, "C18: printing the attribute of a number gives the number");
        },
        Err(_) => claim(n == 0 || n > N, "C18: a number which fits is accepted"),
    }
}
/// Every attribute of which no byte but the last is a digit.
fn print_weird(lo: usize, hi: usize) {
    let last = lo + each(hi - lo);
    let b = any!(32);
    for i in 0..32 {
        if i > last { assume(b[i] == 0); }
        else if i < last && i >= 2 { assume(b[i] > 9); }
    }
    assume(b[last] != 0);
    if let Ok(x) = PhoneNumber::from_bytes(&b) {
        reach("printed");
        let s = String::from(x);
        claim(s.len() <= 32, "C19: the text of an attribute is short");
    }
}
/// Every attribute at all.
fn print_any(lo: usize, hi: usize) {
    let last = lo + each(hi - lo);
    let b = any!(32);
    for i in 0..32 { if i > last { assume(b[i] == 0); } }
    assume(b[last] != 0);
    if let Ok(x) = PhoneNumber::from_bytes(&b) {
        reach("printed");
        let s = String::from(x);
        claim(s.len() <= 32, "C19: the text of an attribute is short");
    }
}
/// At most two bytes, anywhere, are not digits.
fn print_few(lo: usize, hi: usize, few: usize) {
    let last = lo + each(hi - lo);
    let b = any!(32);
    let p = any_usize(31);
    let q = if few > 1 { any_usize(31) } else { p };
    for i in 0..32 {
        if i > last { assume(b[i] == 0); }
        else if i < last && i >= 2 { assume(b[i] <= 9 || i == p || i == q); }
    }
    assume(b[last] != 0);
    if let Ok(x) = PhoneNumber::from_bytes(&b) {
        reach("printed");
        let s = String::from(x);
        claim(s.len() <= 32, "C19: the text of an attribute is short");
    }
}

harnesses! {
    n_zero { 
        if let Ok(x) = PhoneNumber::from_bytes(&[0u8; 32]) { reach("printed"); claim(String::from(x).len() <= 32, "C19: the text of the zero attribute is short"); }
    }
    n_any_a { print_any(0, 5) }
    n_any_b { print_any(6, 8) }
    n_any_c { print_any(9, 10) }
    n_any_d_deep { print_any(11, 11) }
    n_any_e_deep { print_any(12, 12) }
    n_any_f_deep { print_any(13, 13) }
    n_any_g_deep { print_any(14, 14) }
    n_any_h_deep { print_any(15, 15) }
    n_any_i_deep { print_any(16, 16) }
    n_any_j_deep { print_any(17, 17) }
    n_one_a { print_few(0, 9, 1) }
    n_few_a_deep { print_few(0, 9, 2) }
    n_one_b { print_few(10, 14, 1) }
    n_few_b_deep { print_few(10, 14, 2) }
    n_one_c { print_few(15, 18, 1) }
    n_few_c_deep { print_few(15, 18, 2) }
    n_one_d { print_few(19, 21, 1) }
    n_few_d_deep { print_few(19, 21, 2) }
    n_one_e { print_few(22, 23, 1) }
    n_few_e_deep { print_few(22, 23, 2) }
    n_one_f { print_few(24, 25, 1) }
    n_few_f_deep { print_few(24, 25, 2) }
    n_one_g { print_few(26, 27, 1) }
    n_few_g_deep { print_few(26, 27, 2) }
    n_one_h { print_few(28, 29, 1) }
    n_few_h_deep { print_few(28, 29, 2) }
    n_one_i { print_few(30, 31, 1) }
    n_few_i_deep { print_few(30, 31, 2) }
    n_weird_a { print_weird(0, 9) }
    n_weird_b { print_weird(10, 20) }
    n_weird_c { print_weird(21, 31) }
    n_round_a { round_trip(0, 9) }
    n_round_b { round_trip(10, 15) }
    n_round_c { round_trip(16, 20) }
    n_round_d { round_trip(21, 23) }
    n_round_e { round_trip(24, 28) }
    // Both forms of a number become the same attribute.
    n_forms {
        let n = each(N);
        let s = digits(n);
        let mut v = s.as_bytes().to_vec();
        for x in v.iter_mut() { *x -= 48; }
        match (PhoneNumber::try_from_string(&s), PhoneNumber::try_from_bytes(&v)) {
            (Ok(x), Ok(y)) => {
                reach("accepted");
                let (p, q) = (bytes_of(&x), bytes_of(&y));
                for i in 0..32 { claim(p[i] == q[i], "C18: both forms of a number become the same attribute"); }
            },
            (Err(_), Err(_)) => claim(n == 0, "C18: a number which fits is accepted"),
            _ => claim(false, "C18: both forms of a number are accepted or refused alike"),
        }
    }
    // Different digit sequences never become the same attribute.
    n_injective {
        let (a, b) = (any_buffer(N + 2), any_buffer(N + 2));
        if let (Ok(x), Ok(y)) = (PhoneNumber::try_from_bytes(a), PhoneNumber::try_from_bytes(b)) {
            reach("accepted");
            let (p, q) = (bytes_of(&x), bytes_of(&y));
            for i in 0..32 { assume(p[i] == q[i]); }
            reach("equal");
            claim(a.len() == b.len(), "C18: numbers of different lengths become different attributes");
            let i = any_usize(N + 2);
            if i < a.len() { claim(a[i] == b[i], "C18: different numbers become different attributes"); }
        }
    }
    // Conversions from hostile input.
    n_bytes {
        let b = any_buffer(80);
        match PhoneNumber::try_from_bytes(b) {
            Ok(x) => {
                reach("accepted");
                claim(b.len() > 0 && b.len() <= N, "C19: byte numbers which do not fit are refused");
                claim(x.0.is_canonical(), "C19: attributes are canonical");
            },
            Err(_) => claim(b.len() == 0 || b.len() > N, "C18: a number which fits is accepted"),
        }
    }
    n_bytes_long {
        let n = [1 << 8, 1 << 16][each(1)] + [0, 1, 11, N][each(3)];
        claim(PhoneNumber::try_from_bytes(buffer(n, n)).is_err(), "C19: byte numbers which do not fit are refused");
        reach("refused");
    }
    n_text_wide {
        let n = [1 << 8, 1 << 15][each(1)] + [0, 1, 11, N][each(3)];
        let mut v = vec![b'0'; n];
        v[..1].copy_from_slice(buffer(1, 1));
        assume(v[0] < 0x80);
        let s = unsafe { String::from_utf8_unchecked(v) };
        claim(PhoneNumber::try_from_string(&s).is_err(), "C19: textual numbers which do not fit are refused");
        reach("refused");
    }
    n_text {
        let n = each(N + 4);
        let s = text(n, N + 4);
        let v = s.as_bytes().to_vec();
        match PhoneNumber::try_from_string(&s) {
            Ok(x) => {
                reach("accepted");
                claim(n > 0 && n <= N, "C19: textual numbers which do not fit are refused");
                for i in 0..n { claim(digit(v[i]), "C19: characters which are not digits are refused"); }
                claim(x.0.is_canonical(), "C19: attributes are canonical");
            },
            Err(_) => reach("refused"),
        }
    }
    n_text_long {
        let n = N + 5 + each(40);
        let s = unsafe { String::from_utf8_unchecked(buffer(n, n).to_vec()) };
        assume(s.as_bytes()[0] < 0x80);
        claim(PhoneNumber::try_from_string(&s).is_err(), "C19: textual numbers which do not fit are refused");
        reach("refused");
    }
}
