use core::borrow::Borrow;
use core::fmt;
use core::iter::{Product, Sum};
use core::ops::{Add, AddAssign, Index, Mul, MulAssign, Neg, Sub, SubAssign};
use rand::{CryptoRng, Rng};
use digest::Digest;
use generic_array::typenum::U64;
use subtle::{Choice, ConditionallyAssignable, ConstantTimeEq};

/// The group order.
pub const ELL: [u8; 32] = [0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14,
                           0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10];

#[derive(Copy, Clone, Hash)]
pub struct Scalar { pub(crate) bytes: [u8; 32] }

fn words(b: &[u8; 32]) -> (u128, u128) {
    let mut lo = [0u8; 16];
    let mut hi = [0u8; 16];
    lo.copy_from_slice(&b[..16]);
    hi.copy_from_slice(&b[16..]);
    (u128::from_le_bytes(lo), u128::from_le_bytes(hi))
}
fn less(a: (u128, u128), b: (u128, u128)) -> bool { (a.1 < b.1) | ((a.1 == b.1) & (a.0 < b.0)) }
fn minus(a: (u128, u128), b: (u128, u128)) -> (u128, u128) {
    let (lo, borrow) = a.0.overflowing_sub(b.0);
    (lo, a.1.wrapping_sub(b.1).wrapping_sub(borrow as u128))
}
fn encode(x: (u128, u128)) -> [u8; 32] {
    let mut out = [0u8; 32];
    out[..16].copy_from_slice(&x.0.to_le_bytes());
    out[16..].copy_from_slice(&x.1.to_le_bytes());
    out
}
/// Sums and differences modulo the group order.
pub(crate) fn sum(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
    let (a, b) = (words(a), words(b));
    let (lo, carry) = a.0.overflowing_add(b.0);
    let x = (lo, a.1.wrapping_add(b.1).wrapping_add(carry as u128));
    encode(if less(x, words(&ELL)) { x } else { minus(x, words(&ELL)) })
}
pub(crate) fn difference(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
    let (a, b) = (words(a), words(b));
    let x = minus(a, b);
    if !less(a, b) { return encode(x); }
    let l = words(&ELL);
    let (lo, carry) = x.0.overflowing_add(l.0);
    encode((lo, x.1.wrapping_add(l.1).wrapping_add(carry as u128)))
}
pub(crate) fn canonical(b: &[u8; 32]) -> bool { less(words(b), words(&ELL)) }

/// An unconstrained scalar, the result of an operation.
pub fn havoc(op: u32, a: &[u8], b: &[u8]) -> Scalar {
    let bytes = nd::apply32(op, a, b);
    nd::assume(canonical(&bytes));
    Scalar { bytes }
}

impl Scalar {
    pub fn from_bytes_mod_order(bytes: [u8; 32]) -> Scalar {
        if canonical(&bytes) { return Scalar { bytes }; }
        let mut x = words(&bytes);
        let l = words(&ELL);
        let l2 = ((l.0 << 1), (l.1 << 1) | (l.0 >> 127));
        let l4 = ((l2.0 << 1), (l2.1 << 1) | (l2.0 >> 127));
        let l8 = ((l4.0 << 1), (l4.1 << 1) | (l4.0 >> 127));
        if !less(x, l8) { x = minus(x, l8); }
        if !less(x, l4) { x = minus(x, l4); }
        if !less(x, l2) { x = minus(x, l2); }
        if !less(x, l) { x = minus(x, l); }
        let mut out = [0u8; 32];
        out[..16].copy_from_slice(&x.0.to_le_bytes());
        out[16..].copy_from_slice(&x.1.to_le_bytes());
        Scalar { bytes: out }
    }
    pub fn from_bytes_mod_order_wide(input: &[u8; 64]) -> Scalar { havoc(10, input, &[]) }
    pub fn from_canonical_bytes(bytes: [u8; 32]) -> Option<Scalar> {
        if canonical(&bytes) { Some(Scalar { bytes }) } else { None }
    }
    pub fn from_bits(bytes: [u8; 32]) -> Scalar {
        let mut s = Scalar { bytes };
        s.bytes[31] &= 0b0111_1111;
        s
    }
    pub fn random<T: Rng + CryptoRng>(rng: &mut T) -> Self {
        let mut b = [0u8; 64];
        rng.fill_bytes(&mut b);
        Scalar::from_bytes_mod_order_wide(&b)
    }
    pub fn hash_from_bytes<D: Digest<OutputSize = U64> + Default>(input: &[u8]) -> Scalar { havoc(11, input, &[]) }
    pub fn from_hash<D: Digest<OutputSize = U64> + Default>(_hash: D) -> Scalar { havoc(12, &[], &[]) }
    pub fn to_bytes(&self) -> [u8; 32] { self.bytes }
    pub fn as_bytes(&self) -> &[u8; 32] { &self.bytes }
    pub fn zero() -> Self { Scalar { bytes: [0u8; 32] } }
    pub fn one() -> Self { Scalar::from(1u64) }
    pub fn invert(&self) -> Scalar { havoc(13, &self.bytes, &[]) }
    pub fn batch_invert(inputs: &mut [Scalar]) -> Scalar { for x in inputs.iter_mut() { *x = x.invert(); } havoc(14, &[], &[]) }
    pub fn reduce(&self) -> Scalar { Scalar::from_bytes_mod_order(self.bytes) }
    pub fn is_canonical(&self) -> bool { canonical(&self.bytes) }
}
impl fmt::Debug for Scalar { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("Scalar") } }
impl Eq for Scalar {}
impl PartialEq for Scalar { fn eq(&self, o: &Self) -> bool { { let (a, b) = (words(&self.bytes), words(&o.bytes)); (a.0 ^ b.0) | (a.1 ^ b.1) == 0 } } }
impl ConstantTimeEq for Scalar { fn ct_eq(&self, o: &Self) -> Choice { Choice::from((self == o) as u8) } }
impl Index<usize> for Scalar { type Output = u8; fn index(&self, i: usize) -> &u8 { &(self.bytes[i]) } }
impl Default for Scalar { fn default() -> Scalar { Scalar::zero() } }
macro_rules! from { ($($t:ty)*) => { $(impl From<$t> for Scalar {
    fn from(x: $t) -> Scalar {
        let mut bytes = [0u8; 32];
        bytes[..16].copy_from_slice(&(x as u128).to_le_bytes());
        Scalar { bytes }
    }
})* } }
from!(u8 u16 u32 u64 u128);
macro_rules! arithmetic { ($($t:ident $f:ident $ta:ident $fa:ident $op:expr;)*) => { $(
    impl<'a, 'b> $t<&'b Scalar> for &'a Scalar { type Output = Scalar; fn $f(self, o: &'b Scalar) -> Scalar { havoc($op, &self.bytes, &o.bytes) } }
    impl<'b> $t<&'b Scalar> for Scalar { type Output = Scalar; fn $f(self, o: &'b Scalar) -> Scalar { havoc($op, &self.bytes, &o.bytes) } }
    impl<'a> $t<Scalar> for &'a Scalar { type Output = Scalar; fn $f(self, o: Scalar) -> Scalar { havoc($op, &self.bytes, &o.bytes) } }
    impl $t<Scalar> for Scalar { type Output = Scalar; fn $f(self, o: Scalar) -> Scalar { havoc($op, &self.bytes, &o.bytes) } }
    impl<'b> $ta<&'b Scalar> for Scalar { fn $fa(&mut self, o: &'b Scalar) { *self = havoc($op, &self.bytes, &o.bytes); } }
    impl $ta<Scalar> for Scalar { fn $fa(&mut self, o: Scalar) { *self = havoc($op, &self.bytes, &o.bytes); } }
)* } }
arithmetic!(Add add AddAssign add_assign 20; Sub sub SubAssign sub_assign 21; Mul mul MulAssign mul_assign 22;);
impl<'a> Neg for &'a Scalar { type Output = Scalar; fn neg(self) -> Scalar { havoc(23, &self.bytes, &[]) } }
impl Neg for Scalar { type Output = Scalar; fn neg(self) -> Scalar { havoc(23, &self.bytes, &[]) } }
impl<T: Borrow<Scalar>> Sum<T> for Scalar { fn sum<I: Iterator<Item = T>>(i: I) -> Self { i.fold(Scalar::zero(), |a, x| a + x.borrow()) } }
impl<T: Borrow<Scalar>> Product<T> for Scalar { fn product<I: Iterator<Item = T>>(i: I) -> Self { i.fold(Scalar::one(), |a, x| a * x.borrow()) } }

impl ConditionallyAssignable for Scalar {
    fn conditional_assign(&mut self, other: &Scalar, choice: Choice) { if choice.unwrap_u8() == 1 { *self = *other; } }
}
#[cfg(feature = "serde")]
mod with_serde {
use super::*;
use serde::de::Visitor;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
impl Serialize for Scalar {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_bytes(self.reduce().as_bytes()) }
}
impl<'de> Deserialize<'de> for Scalar {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Scalar;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("a canonically-encoded 32-byte scalar value") }
            fn visit_bytes<E: serde::de::Error>(self, v: &[u8]) -> Result<Scalar, E> {
                if v.len() != 32 { return Err(serde::de::Error::invalid_length(v.len(), &self)); }
                let mut bytes = [0u8; 32];
                bytes.copy_from_slice(v);
                Scalar::from_canonical_bytes(bytes).ok_or(serde::de::Error::invalid_length(v.len(), &self))
            }
        }
        d.deserialize_bytes(V)
    }
}
}
