//! The five proof statements: secrets, publics and equations as the protocol specifies them (zkp-expand/src/proofs.rs).
use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity;
use merlin::Transcript;
use serde::{Deserialize, Serialize};
use sym::*;

pub type P = RistrettoPoint;
pub type Eqs = Vec<(&'static str, Vec<(&'static str, &'static str)>)>;

pub trait Statement {
    type Proof: Clone + PartialEq + Serialize + for<'de> Deserialize<'de>;
    fn name() -> &'static str;
    fn secrets() -> Vec<&'static str>;
    fn publics() -> Vec<&'static str>;
    /// public = sum of secret * public
    fn equations() -> Eqs;
    fn create(t: &mut Transcript, p: &[P], s: &[Scalar]) -> Self::Proof;
    fn verify(proof: &Self::Proof, t: &mut Transcript, p: &[P]) -> bool;

    fn sec(name: &str) -> usize { Self::secrets().iter().position(|n| *n == name).unwrap() }
    fn pbl(name: &str) -> usize { Self::publics().iter().position(|n| *n == name).unwrap() }

    /// Free secrets, and publics which satisfy the equations.
    fn instance(tag: &str) -> (Vec<P>, Vec<Scalar>) {
        let s: Vec<Scalar> = Self::secrets().iter().map(|n| scalar(&format!("{}.{}", tag, n))).collect();
        let lhs: Vec<&str> = Self::equations().iter().map(|e| e.0).collect();
        let mut p: Vec<P> = Self::publics().iter().map(|n| {
            if lhs.contains(n) { P::identity() } else { point(&format!("{}.{}", tag, n)) }
        }).collect();
        for (l, r) in Self::equations() { let v = Self::combine(&r, &p, &s); p[Self::pbl(l)] = v; }
        (p, s)
    }
    /// Free publics.
    fn any(tag: &str) -> Vec<P> { Self::publics().iter().map(|n| point(&format!("{}.{}", tag, n))).collect() }
    fn combine(r: &[(&'static str, &'static str)], p: &[P], s: &[Scalar]) -> P {
        let mut v = P::identity();
        for (x, b) in r.iter() { v = v + s[Self::sec(x)] * p[Self::pbl(b)]; }
        v
    }
    fn responses(proof: &Self::Proof) -> Vec<Scalar> { Self::secrets().iter().map(|n| field(proof, n)).collect() }
    fn challenge(proof: &Self::Proof) -> Scalar { field(proof, "challenge") }
}

macro_rules! statement {
    ($t:ident, $m:ident, ($($s:ident),*), ($($p:ident),*), [$($l:ident = $($x:ident * $b:ident)|+);*]) => {
        pub struct $t;
        impl Statement for $t {
            type Proof = ::aeonflux::proofs::$m::Proof;
            fn name() -> &'static str { stringify!($m) }
            fn secrets() -> Vec<&'static str> { vec![$(stringify!($s)),*] }
            fn publics() -> Vec<&'static str> { vec![$(stringify!($p)),*] }
            fn equations() -> Eqs { vec![$((stringify!($l), vec![$((stringify!($x), stringify!($b))),+])),*] }
            fn create(t: &mut Transcript, p: &[P], s: &[Scalar]) -> Self::Proof {
                let secrets = ::aeonflux::proofs::$m::Secrets { $($s: &s[Self::sec(stringify!($s))]),* };
                let publics = ::aeonflux::proofs::$m::Publics { $($p: &p[Self::pbl(stringify!($p))]),* };
                Self::Proof::create(t, publics, secrets)
            }
            fn verify(proof: &Self::Proof, t: &mut Transcript, p: &[P]) -> bool {
                let publics = ::aeonflux::proofs::$m::Publics { $($p: &p[Self::pbl(stringify!($p))]),* };
                proof.verify(t, publics).is_ok()
            }
        }
    };
}

statement!(IssuanceRevealed, issuance_revealed, (x0, x1, x0_tilde, m1x1), (P, Q, Cx0, B, A, X1),
           [Q = x0 * P | m1x1 * P; Cx0 = x0 * B | x0_tilde * A; X1 = x1 * A]);
statement!(AttributesBlinded, attributes_blinded, (d, e0, m0, nonce),
           (B, A, D, encrypted_attribute_0_0, encrypted_attribute_0_1),
           [D = d * B; encrypted_attribute_0_0 = e0 * B; encrypted_attribute_0_1 = m0 * B | e0 * D]);
statement!(IssuanceBlinded, issuance_blinded, (x0_tilde, x0, x1, s, b, t0),
           (B, A, X0, X1, D, P, T0_0, T0_1, EQ_commitment, EQ_encryption, encrypted_attribute_0_0, encrypted_attribute_0_1),
           [X0 = x0 * B | x0_tilde * A; X1 = x1 * A; P = b * B; T0_0 = b * X0; T0_1 = t0 * A;
            EQ_commitment = s * B | t0 * encrypted_attribute_0_0; EQ_encryption = s * D | t0 * encrypted_attribute_0_1]);
statement!(ValidCredential, valid_credential, (m0, z0, minus_zQ), (B, A, X0, P, V, Cm0),
           [Cm0 = m0 * P | z0 * A; V = z0 * X0 | minus_zQ * A]);
statement!(CommittedValuesEqual, committed_values_equal, (m0, z0, z1), (B, A, P, Cm0, Cm1),
           [Cm0 = m0 * P | z0 * A; Cm1 = m0 * A | z1 * B]);

/// Run a generic scenario for each statement.
macro_rules! for_each_statement {
    ($list:ident, $prefix:expr, $f:ident) => {
        for_each_statement!(@ $list, $prefix, $f, IssuanceRevealed, AttributesBlinded, IssuanceBlinded, ValidCredential, CommittedValuesEqual)
    };
    (@ $list:ident, $prefix:expr, $f:ident, $($t:ident),*) => {
        $( $list.push((format!("{}_{}", $prefix, <$t as Statement>::name()), Box::new(|| $f::<$t>()) as Box<Fn()>)); )*
    };
}
