//! C28: the build-check function, for every pair of draws.
extern crate curve25519_dalek;
extern crate maths;
extern crate rand;
extern crate symcore;

use curve25519_dalek::constants::RISTRETTO_BASEPOINT_TABLE;
use curve25519_dalek::ristretto::{CompressedRistretto, RistrettoPoint};
use curve25519_dalek::scalar::Scalar;

fn draw_value(i: usize) -> Scalar { Scalar::from_bytes_mod_order_wide(&symcore::with(|s| s.draw_out[i])) }
fn reach(label: &str) { symcore::with(|s| if !s.reached.iter().any(|l| l == label) { s.reached.push(label.to_string()) }) }
fn check(label: &str, ok: bool) {
    if !ok { symcore::finish("FAIL", label); }
    reach(&format!("checked:{}", label));
}
#[cfg(not(feature = "conc"))]
fn identical(a: &RistrettoPoint, b: &RistrettoPoint) -> bool { symcore::identical(a.sym_val(), b.sym_val()) }
#[cfg(feature = "conc")]
fn identical(a: &RistrettoPoint, b: &RistrettoPoint) -> bool { a == b }

fn demo() {
    let out: CompressedRistretto = maths::do_things_with_maths();
    check("two values are drawn", symcore::with(|s| s.draw_out.len()) == 2);
    let r = match out.decompress() { Some(r) => r, None => { check("the result is an encoded point", false); unreachable!() } };
    // Either draw may be the blinding factor; the other makes the nonce.
    let f = |b: Scalar, n: Scalar| (&n * &RISTRETTO_BASEPOINT_TABLE) * (Scalar::one() + b * Scalar::from(4155551234u64));
    let (x, y) = (draw_value(0), draw_value(1));
    let (a, b) = (f(x, y), f(y, x));
    let expected = if identical(&r, &b) { b } else { a };
    check("the result is the nonce times one plus the blinding factor times the number", r == expected);
    check("the result is the encoding of that point", out.to_bytes() == expected.compress().to_bytes());
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    rand::set_symbolic_entropy(|d: &mut [u8]| symcore::entropy("thread", d));
    std::panic::set_hook(Box::new(|info| symcore::finish("PANIC", &format!("{}", info))));
    if args[1] == "--list" { println!("C28_demo"); return; }
    symcore::with(|s| {
        s.draws_nonzero = false;
        if cfg!(feature = "conc") {
            for l in std::fs::read_to_string(&args[2]).unwrap().lines() {
                let mut b = [0u8; 32];
                for i in 0..32 { b[i] = u8::from_str_radix(&l[2 * i..2 * i + 2], 16).unwrap(); }
                s.tape.push(b);
            }
        } else if args.len() > 2 {
            s.prefix = args[2].chars().map(|c| c == 'T').collect();
        }
    });
    demo();
    symcore::finish("OK", "");
}
