use std::borrow::Borrow;
use std::fmt;
use std::iter::{Product, Sum};
use std::ops::{Add, AddAssign, Index, Mul, MulAssign, Neg, Sub, SubAssign};

use digest::Digest;
use generic_array::typenum::U64;
use rand::{CryptoRng, Rng};
use subtle::{Choice, ConditionallyAssignable, ConstantTimeEq};
use symcore::{self, Val, MAGIC_B, MAGIC_S, MAGIC_W, RS};

#[derive(Copy, Clone, Hash)]
pub struct Scalar { pub(crate) bytes: [u8; 32] }

fn real(b: [u8; 32]) -> RS { RS::from_bits(b) }

impl Scalar {
    pub fn sym_val(&self) -> Val {
        match symcore::is_handle(&self.bytes, MAGIC_S) {
            Some(id) => Val::N(id),
            None => Val::C(real(self.bytes).reduce().to_bytes()),
        }
    }
    pub fn sym_from(v: Val) -> Scalar {
        match v {
            Val::C(c) => Scalar { bytes: c },
            Val::N(n) => Scalar { bytes: symcore::mk_handle(MAGIC_S, n) },
        }
    }
    pub fn is_symbolic(&self) -> bool { symcore::is_handle(&self.bytes, MAGIC_S).is_some() }

    fn of_handle(bytes: &[u8; 32]) -> Option<Scalar> {
        if symcore::is_handle(bytes, MAGIC_S).is_some() { return Some(Scalar { bytes: *bytes }); }
        if let Some(v) = symcore::is_handle(bytes, MAGIC_B) { return Some(Scalar::sym_from(Val::N(v))); }
        symcore::reject_mangled(&bytes[..]);
        None
    }
    pub fn from_bytes_mod_order(bytes: [u8; 32]) -> Scalar {
        match Scalar::of_handle(&bytes) { Some(s) => s, None => Scalar { bytes: RS::from_bytes_mod_order(bytes).to_bytes() } }
    }
    pub fn from_bytes_mod_order_wide(input: &[u8; 64]) -> Scalar {
        if let Some(v) = symcore::is_handle(&input[0..32], MAGIC_W) {
            if input[32..].iter().all(|x| *x == 0) { return Scalar::sym_from(Val::N(v)); }
        }
        symcore::reject_mangled(&input[..]);
        Scalar { bytes: RS::from_bytes_mod_order_wide(input).to_bytes() }
    }
    pub fn from_canonical_bytes(bytes: [u8; 32]) -> Option<Scalar> {
        match Scalar::of_handle(&bytes) {
            Some(s) => Some(s),
            None => RS::from_canonical_bytes(bytes).map(|s| Scalar { bytes: s.to_bytes() }),
        }
    }
    pub fn from_bits(bytes: [u8; 32]) -> Scalar {
        match Scalar::of_handle(&bytes) { Some(s) => s, None => Scalar { bytes: RS::from_bits(bytes).to_bytes() } }
    }
    pub fn random<T: Rng + CryptoRng>(rng: &mut T) -> Self {
        let mut b = [0u8; 64];
        rng.fill_bytes(&mut b);
        Scalar::from_bytes_mod_order_wide(&b)
    }
    pub fn hash_from_bytes<D>(input: &[u8]) -> Scalar where D: Digest<OutputSize = U64> + Default {
        if symcore::segments(input).iter().any(|s| match *s { symcore::Seg::Raw(_) => false, _ => true }) {
            let v = symcore::ro("hash", &vec![input.to_vec()]);
            return Scalar::sym_from(symcore::var_val(v));
        }
        let mut hash = D::default();
        hash.input(input);
        Scalar::from_hash(hash)
    }
    pub fn from_hash<D>(hash: D) -> Scalar where D: Digest<OutputSize = U64> + Default {
        let mut output = [0u8; 64];
        output.copy_from_slice(hash.result().as_slice());
        Scalar::from_bytes_mod_order_wide(&output)
    }
    pub fn to_bytes(&self) -> [u8; 32] { self.bytes }
    pub fn as_bytes(&self) -> &[u8; 32] { &self.bytes }
    pub fn zero() -> Self { Scalar { bytes: [0u8; 32] } }
    pub fn one() -> Self { let mut b = [0u8; 32]; b[0] = 1; Scalar { bytes: b } }
    pub fn invert(&self) -> Scalar {
        if !self.is_symbolic() { return Scalar { bytes: real(self.bytes).invert().to_bytes() }; }
        Scalar::sym_from(symcore::inverse(self.sym_val()))
    }
    pub fn batch_invert(inputs: &mut [Scalar]) -> Scalar {
        let mut acc = Scalar::one();
        for i in inputs.iter_mut() { *i = i.invert(); acc = acc * *i; }
        acc
    }
    pub fn reduce(&self) -> Scalar {
        if self.is_symbolic() { *self } else { Scalar { bytes: real(self.bytes).reduce().to_bytes() } }
    }
    pub fn is_canonical(&self) -> bool {
        self.is_symbolic() || real(self.bytes).is_canonical()
    }
}

fn s_add(a: &Scalar, b: &Scalar) -> Scalar { Scalar::sym_from(symcore::v_add(a.sym_val(), b.sym_val())) }
fn s_sub(a: &Scalar, b: &Scalar) -> Scalar { Scalar::sym_from(symcore::v_sub(a.sym_val(), b.sym_val())) }
fn s_mul(a: &Scalar, b: &Scalar) -> Scalar { Scalar::sym_from(symcore::v_mul(a.sym_val(), b.sym_val())) }
binop!(Add, add, AddAssign, add_assign, Scalar, Scalar, Scalar, s_add);
binop!(Sub, sub, SubAssign, sub_assign, Scalar, Scalar, Scalar, s_sub);
binop!(Mul, mul, MulAssign, mul_assign, Scalar, Scalar, Scalar, s_mul);
impl<'a> Neg for &'a Scalar { type Output = Scalar; fn neg(self) -> Scalar { Scalar::sym_from(symcore::v_neg(self.sym_val())) } }
impl Neg for Scalar { type Output = Scalar; fn neg(self) -> Scalar { -&self } }

impl Eq for Scalar {}
impl PartialEq for Scalar {
    fn eq(&self, other: &Self) -> bool {
        if !self.is_symbolic() && !other.is_symbolic() { return self.bytes == other.bytes; }
        symcore::decide_eq(self.sym_val(), other.sym_val())
    }
}
impl ConstantTimeEq for Scalar { fn ct_eq(&self, other: &Self) -> Choice { Choice::from((self == other) as u8) } }
impl Index<usize> for Scalar {
    type Output = u8;
    fn index(&self, i: usize) -> &u8 {
        if self.is_symbolic() { symcore::unencodable("indexing the bytes of a symbolic scalar"); }
        &self.bytes[i]
    }
}
impl ConditionallyAssignable for Scalar {
    fn conditional_assign(&mut self, other: &Scalar, choice: Choice) { if choice.unwrap_u8() == 1 { *self = *other; } }
}
impl fmt::Debug for Scalar {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "Scalar{{\n\tbytes: {:?},\n}}", &self.bytes) }
}
impl Default for Scalar { fn default() -> Scalar { Scalar::zero() } }
impl<T> Product<T> for Scalar where T: Borrow<Scalar> {
    fn product<I>(iter: I) -> Self where I: Iterator<Item = T> { iter.fold(Scalar::one(), |a, i| a * i.borrow()) }
}
impl<T> Sum<T> for Scalar where T: Borrow<Scalar> {
    fn sum<I>(iter: I) -> Self where I: Iterator<Item = T> { iter.fold(Scalar::zero(), |a, i| a + i.borrow()) }
}
macro_rules! from_uint { ($($t:ty),*) => { $(
    impl From<$t> for Scalar { fn from(x: $t) -> Scalar { Scalar { bytes: RS::from(x).to_bytes() } } }
)* } }
from_uint!(u8, u16, u32, u64, u128);

#[cfg(feature = "serde")]
mod ser {
    use super::Scalar;
    use serde::de::Visitor;
    use serde::{self, Deserialize, Deserializer, Serialize, Serializer};
    use std::fmt;
    impl Serialize for Scalar {
        fn serialize<S>(&self, s: S) -> Result<S::Ok, S::Error> where S: Serializer { s.serialize_bytes(self.reduce().as_bytes()) }
    }
    impl<'de> Deserialize<'de> for Scalar {
        fn deserialize<D>(d: D) -> Result<Self, D::Error> where D: Deserializer<'de> {
            struct V;
            impl<'de> Visitor<'de> for V {
                type Value = Scalar;
                fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("a canonically-encoded 32-byte scalar value") }
                fn visit_bytes<E>(self, v: &[u8]) -> Result<Scalar, E> where E: serde::de::Error {
                    if v.len() != 32 { return Err(serde::de::Error::invalid_length(v.len(), &self)); }
                    let mut b = [0u8; 32];
                    b.copy_from_slice(v);
                    Scalar::from_canonical_bytes(b).ok_or(serde::de::Error::custom("encoding was not canonical"))
                }
            }
            d.deserialize_bytes(V)
        }
    }
}
