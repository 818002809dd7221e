use crate::scalar::{canonical, difference, sum, Scalar};
use crate::traits::{Identity, MultiscalarMul, VartimeMultiscalarMul};
use core::borrow::Borrow;
use core::fmt;
use core::iter::Sum;
use core::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
use rand::{CryptoRng, Rng};
use digest::Digest;
use generic_array::typenum::U64;
use subtle::{Choice, ConditionallyAssignable, ConstantTimeEq};

pub const B: [u8; 32] = [0xe2, 0xf2, 0xae, 0x0a, 0x6a, 0xbc, 0x4e, 0x71, 0xa8, 0x84, 0xa9, 0x61, 0xc5, 0x00, 0x51, 0x5f,
                         0x58, 0xe3, 0x0b, 0x6a, 0xa5, 0x82, 0xdd, 0x8d, 0xb6, 0xa6, 0x59, 0x45, 0xe0, 0x8d, 0x2d, 0x76];
pub const B2: [u8; 32] = [0x6a, 0x49, 0x32, 0x10, 0xf7, 0x49, 0x9c, 0xd1, 0x7f, 0xec, 0xb5, 0x10, 0xae, 0x0c, 0xea, 0x23,
                          0xa1, 0x10, 0xe8, 0xd5, 0xb9, 0x01, 0xf8, 0xac, 0xad, 0xd3, 0x09, 0x5c, 0x73, 0xa3, 0xb9, 0x19];
pub const B3: [u8; 32] = [0x94, 0x74, 0x1f, 0x5d, 0x5d, 0x52, 0x75, 0x5e, 0xce, 0x4f, 0x23, 0xf0, 0x44, 0xee, 0x27, 0xd5,
                          0xd1, 0xea, 0x1e, 0x2b, 0xd1, 0x96, 0xb4, 0x62, 0x16, 0x6b, 0x16, 0x15, 0x2a, 0x9d, 0x02, 0x59];

fn same(a: &[u8; 32], b: &[u8; 32]) -> bool {
    let f = |x: &[u8; 32]| {
        let (mut lo, mut hi) = ([0u8; 16], [0u8; 16]);
        lo.copy_from_slice(&x[..16]);
        hi.copy_from_slice(&x[16..]);
        (u128::from_le_bytes(lo), u128::from_le_bytes(hi))
    };
    let (a, b) = (f(a), f(b));
    (a.0 ^ b.0) | (a.1 ^ b.1) == 0
}
fn in_k(b: &[u8; 32]) -> bool { same(b, &[0u8; 32]) | same(b, &B) | same(b, &B2) | same(b, &B3) }

#[derive(Copy, Clone, Hash)]
pub struct CompressedRistretto(pub [u8; 32]);
#[derive(Copy, Clone)]
pub struct RistrettoPoint { pub(crate) bytes: [u8; 32] }

/// An unconstrained one of the points considered, the result of an operation.
pub fn havoc(op: u32, a: &[u8], b: &[u8]) -> RistrettoPoint {
    let bytes = nd::apply32(op, a, b);
    nd::assume(if nd::in_coordinates() { canonical(&bytes) } else { in_k(&bytes) });
    RistrettoPoint { bytes }
}
/// The result of operation `op`.  In coordinates a point a g + b h is known by a (with g = 1, h = 0) or by b (with g = 0, h = 1):
/// sums are exact, and so are multiples of 0 and 1.
fn apply(op: u32, a: &[u8; 32], b: &[u8; 32]) -> RistrettoPoint {
    if !nd::in_coordinates() { return havoc(op, a, b); }
    let zero = [0u8; 32];
    let mut one = zero;
    one[0] = 1;
    match op {
        40 => RistrettoPoint { bytes: sum(a, b) },
        41 => RistrettoPoint { bytes: difference(a, b) },
        44 => RistrettoPoint { bytes: difference(&zero, a) },
        42 | 43 | 46 => {
            if same(a, &zero) | same(b, &zero) { return RistrettoPoint { bytes: zero }; }
            if same(a, &one) { return RistrettoPoint { bytes: *b }; }
            if same(b, &one) { return RistrettoPoint { bytes: *a }; }
            havoc(op, a, b)
        },
        _ => havoc(op, a, b),
    }
}

impl CompressedRistretto {
    pub fn to_bytes(&self) -> [u8; 32] { self.0 }
    pub fn as_bytes(&self) -> &[u8; 32] { &self.0 }
    pub fn from_slice(bytes: &[u8]) -> CompressedRistretto {
        let mut tmp = [0u8; 32];
        tmp.copy_from_slice(bytes);
        CompressedRistretto(tmp)
    }
    pub fn decompress(&self) -> Option<RistrettoPoint> {
        let b = &self.0;
        if nd::in_coordinates() {
            return if canonical(b) { Some(RistrettoPoint { bytes: *b }) } else { None };
        }
        if in_k(b) {
            return Some(RistrettoPoint { bytes: *b });
        }
        nd::assume((b[0] & 1) | (b[31] >> 7) == 1);
        None
    }
}
impl Eq for CompressedRistretto {}
impl PartialEq for CompressedRistretto { fn eq(&self, o: &Self) -> bool { same(&self.0, &o.0) } }
impl ConstantTimeEq for CompressedRistretto { fn ct_eq(&self, o: &Self) -> Choice { Choice::from((self == o) as u8) } }
impl Identity for CompressedRistretto { fn identity() -> Self { CompressedRistretto([0u8; 32]) } }
impl Default for CompressedRistretto { fn default() -> Self { CompressedRistretto([0u8; 32]) } }
impl fmt::Debug for CompressedRistretto { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("CompressedRistretto") } }

impl RistrettoPoint {
    pub fn compress(&self) -> CompressedRistretto { CompressedRistretto(self.bytes) }
    pub fn double_and_compress_batch<'a, I: IntoIterator<Item = &'a RistrettoPoint>>(points: I) -> Vec<CompressedRistretto> {
        points.into_iter().map(|x| havoc(30, &x.bytes, &[]).compress()).collect()
    }
    pub fn random<T: Rng + CryptoRng>(rng: &mut T) -> Self {
        let mut b = [0u8; 64];
        rng.fill_bytes(&mut b);
        RistrettoPoint::from_uniform_bytes(&b)
    }
    pub fn hash_from_bytes<D: Digest<OutputSize = U64> + Default>(input: &[u8]) -> RistrettoPoint { havoc(31, input, &[]) }
    pub fn from_hash<D: Digest<OutputSize = U64> + Default>(_hash: D) -> RistrettoPoint { havoc(32, &[], &[]) }
    pub fn from_uniform_bytes(bytes: &[u8; 64]) -> RistrettoPoint { havoc(33, bytes, &[]) }
    pub fn vartime_double_scalar_mul_basepoint(a: &Scalar, A: &RistrettoPoint, b: &Scalar) -> RistrettoPoint { A * a + RistrettoPoint { bytes: B } * b }
}
impl Identity for RistrettoPoint { fn identity() -> Self { RistrettoPoint { bytes: [0u8; 32] } } }
impl Default for RistrettoPoint { fn default() -> Self { RistrettoPoint::identity() } }
impl Eq for RistrettoPoint {}
impl PartialEq for RistrettoPoint { fn eq(&self, o: &Self) -> bool { same(&self.bytes, &o.bytes) } }
impl ConstantTimeEq for RistrettoPoint { fn ct_eq(&self, o: &Self) -> Choice { Choice::from((self == o) as u8) } }
impl fmt::Debug for RistrettoPoint { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("RistrettoPoint") } }
macro_rules! op { ($t:ident $f:ident $a:ty, $b:ty, $op:expr) => {
    impl<'a, 'b> $t<&'b $b> for &'a $a { type Output = RistrettoPoint; fn $f(self, o: &'b $b) -> RistrettoPoint { apply($op, &self.bytes, &o.bytes) } }
    impl<'b> $t<&'b $b> for $a { type Output = RistrettoPoint; fn $f(self, o: &'b $b) -> RistrettoPoint { apply($op, &self.bytes, &o.bytes) } }
    impl<'a> $t<$b> for &'a $a { type Output = RistrettoPoint; fn $f(self, o: $b) -> RistrettoPoint { apply($op, &self.bytes, &o.bytes) } }
    impl $t<$b> for $a { type Output = RistrettoPoint; fn $f(self, o: $b) -> RistrettoPoint { apply($op, &self.bytes, &o.bytes) } }
} }
macro_rules! op_assign { ($t:ident $f:ident $b:ty, $op:expr) => {
    impl<'b> $t<&'b $b> for RistrettoPoint { fn $f(&mut self, o: &'b $b) { *self = apply($op, &self.bytes, &o.bytes); } }
    impl $t<$b> for RistrettoPoint { fn $f(&mut self, o: $b) { *self = apply($op, &self.bytes, &o.bytes); } }
} }
op!(Add add RistrettoPoint, RistrettoPoint, 40);
op!(Sub sub RistrettoPoint, RistrettoPoint, 41);
op!(Mul mul RistrettoPoint, Scalar, 42);
op!(Mul mul Scalar, RistrettoPoint, 43);
op_assign!(AddAssign add_assign RistrettoPoint, 40);
op_assign!(SubAssign sub_assign RistrettoPoint, 41);
op_assign!(MulAssign mul_assign Scalar, 42);
impl<'a> Neg for &'a RistrettoPoint { type Output = RistrettoPoint; fn neg(self) -> RistrettoPoint { apply(44, &self.bytes, &[0u8; 32]) } }
impl Neg for RistrettoPoint { type Output = RistrettoPoint; fn neg(self) -> RistrettoPoint { apply(44, &self.bytes, &[0u8; 32]) } }
impl<T: Borrow<RistrettoPoint>> Sum<T> for RistrettoPoint {
    fn sum<I: Iterator<Item = T>>(i: I) -> Self { i.fold(RistrettoPoint::identity(), |a, x| a + x.borrow()) }
}
impl ConditionallyAssignable for RistrettoPoint {
    fn conditional_assign(&mut self, other: &RistrettoPoint, choice: Choice) { if choice.unwrap_u8() == 1 { *self = *other; } }
}
impl MultiscalarMul for RistrettoPoint {
    type Point = RistrettoPoint;
    fn multiscalar_mul<I, J>(scalars: I, points: J) -> RistrettoPoint
    where I: IntoIterator, I::Item: Borrow<Scalar>, J: IntoIterator, J::Item: Borrow<RistrettoPoint> {
        let (s, p) = (scalars.into_iter(), points.into_iter());
        let (s_lo, s_hi) = s.size_hint();
        let (p_lo, p_hi) = p.size_hint();
        assert!(s_lo == p_lo && s_hi == Some(s_lo) && p_hi == Some(p_lo));
        if nd::in_coordinates() { return s.zip(p).fold(RistrettoPoint::identity(), |a, (s, p)| a + p.borrow() * s.borrow()); }
        havoc(45, &[], &[])
    }
}
impl VartimeMultiscalarMul for RistrettoPoint {
    type Point = RistrettoPoint;
    fn optional_multiscalar_mul<I, J>(scalars: I, points: J) -> Option<RistrettoPoint>
    where I: IntoIterator, I::Item: Borrow<Scalar>, J: IntoIterator<Item = Option<RistrettoPoint>> {
        if nd::in_coordinates() {
            let (mut a, mut s) = (RistrettoPoint::identity(), scalars.into_iter());
            for p in points { a += p? * s.next().unwrap().borrow(); }
            return Some(a);
        }
        let n = scalars.into_iter().count();
        let mut m = 0;
        for x in points { if x.is_none() { return None; } m += 1; }
        assert!(n == m);
        Some(havoc(45, &[], &[]))
    }
}

#[derive(Clone)]
pub struct RistrettoBasepointTable(pub(crate) RistrettoPoint);
impl<'a, 'b> Mul<&'b Scalar> for &'a RistrettoBasepointTable { type Output = RistrettoPoint; fn mul(self, s: &'b Scalar) -> RistrettoPoint { apply(46, &(self.0).bytes, &s.bytes) } }
impl<'a, 'b> Mul<&'a RistrettoBasepointTable> for &'b Scalar { type Output = RistrettoPoint; fn mul(self, t: &'a RistrettoBasepointTable) -> RistrettoPoint { apply(46, &(t.0).bytes, &self.bytes) } }
impl RistrettoBasepointTable {
    pub fn create(basepoint: &RistrettoPoint) -> RistrettoBasepointTable { RistrettoBasepointTable(*basepoint) }
    pub fn basepoint(&self) -> RistrettoPoint { self.0 }
}

#[cfg(feature = "serde")]
mod with_serde {
    use super::*;
    use serde::de::Visitor;
    use serde::{Deserialize, Deserializer, Serialize, Serializer};
    impl Serialize for RistrettoPoint { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_bytes(&self.bytes) } }
    impl Serialize for CompressedRistretto { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_bytes(&self.0) } }
    impl<'de> Deserialize<'de> for RistrettoPoint {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            struct V;
            impl<'de> Visitor<'de> for V {
                type Value = RistrettoPoint;
                fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("a valid point in Ristretto format") }
                fn visit_bytes<E: serde::de::Error>(self, v: &[u8]) -> Result<RistrettoPoint, E> {
                    if v.len() != 32 { return Err(serde::de::Error::invalid_length(v.len(), &self)); }
                    CompressedRistretto::from_slice(v).decompress().ok_or(serde::de::Error::custom("decompression failed"))
                }
            }
            d.deserialize_bytes(V)
        }
    }
    impl<'de> Deserialize<'de> for CompressedRistretto {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            struct V;
            impl<'de> Visitor<'de> for V {
                type Value = CompressedRistretto;
                fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("32 bytes of data") }
                fn visit_bytes<E: serde::de::Error>(self, v: &[u8]) -> Result<CompressedRistretto, E> {
                    if v.len() != 32 { return Err(serde::de::Error::invalid_length(v.len(), &self)); }
                    Ok(CompressedRistretto::from_slice(v))
                }
            }
            d.deserialize_bytes(V)
        }
    }
}
