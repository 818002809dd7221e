use std::borrow::Borrow;
use std::fmt;
use std::iter::Sum;
use std::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};

use digest::Digest;
use generic_array::typenum::U64;
use rand::{CryptoRng, Rng};
use scalar::Scalar;
use subtle::{Choice, ConditionallyAssignable, ConstantTimeEq};
use symcore::{self, Val, MAGIC_B, MAGIC_P, MAGIC_W};
use traits::{Identity, MultiscalarMul, VartimeMultiscalarMul};

#[derive(Copy, Clone, Hash)]
pub struct CompressedRistretto(pub [u8; 32]);

/// The encoding of a point: of a known multiple of the basepoint, or of an unknown one.
#[derive(Copy, Clone)]
pub struct RistrettoPoint { pub(crate) bytes: [u8; 32] }

impl CompressedRistretto {
    pub fn to_bytes(&self) -> [u8; 32] { self.0 }
    pub fn as_bytes(&self) -> &[u8; 32] { &self.0 }
    pub fn from_slice(bytes: &[u8]) -> CompressedRistretto {
        let mut tmp = [0u8; 32];
        tmp.copy_from_slice(bytes);
        CompressedRistretto(tmp)
    }
    pub fn decompress(&self) -> Option<RistrettoPoint> {
        if symcore::is_handle(&self.0, MAGIC_P).is_some() { return Some(RistrettoPoint { bytes: self.0 }); }
        if let Some(p) = symcore::is_handle(&self.0, MAGIC_B) { return Some(RistrettoPoint::sym_from(Val::N(p))); }
        symcore::reject_mangled(&self.0);
        symcore::decompress(&self.0).map(|_| RistrettoPoint { bytes: self.0 })
    }
}
impl Eq for CompressedRistretto {}
impl PartialEq for CompressedRistretto {
    fn eq(&self, o: &Self) -> bool {
        if self.0 == o.0 { return true; }
        let sym = |b: &[u8; 32]| symcore::is_handle(b, MAGIC_P).is_some() || symcore::is_handle(b, MAGIC_B).is_some();
        if !sym(&self.0) && !sym(&o.0) { return false; }
        match (self.decompress(), o.decompress()) { (Some(a), Some(b)) => a == b, _ => false }
    }
}
impl ConstantTimeEq for CompressedRistretto { fn ct_eq(&self, o: &Self) -> Choice { Choice::from((self == o) as u8) } }
impl Identity for CompressedRistretto { fn identity() -> Self { CompressedRistretto([0u8; 32]) } }
impl Default for CompressedRistretto { fn default() -> Self { CompressedRistretto([0u8; 32]) } }
impl fmt::Debug for CompressedRistretto {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "CompressedRistretto: {:?}", &self.0) }
}

impl RistrettoPoint {
    /// The discrete logarithm to the basepoint.
    pub fn sym_val(&self) -> Val {
        match symcore::is_handle(&self.bytes, MAGIC_P) { Some(id) => Val::N(id), None => symcore::point_val(&self.bytes) }
    }
    pub fn sym_from(v: Val) -> RistrettoPoint {
        match v {
            Val::C(c) => RistrettoPoint { bytes: symcore::known_point(&c) },
            Val::N(n) => RistrettoPoint { bytes: symcore::mk_handle(MAGIC_P, n) },
        }
    }
    fn is_symbolic(&self) -> bool { symcore::is_handle(&self.bytes, MAGIC_P).is_some() }
    pub fn compress(&self) -> CompressedRistretto { CompressedRistretto(self.bytes) }
    pub fn double_and_compress_batch<'a, I>(points: I) -> Vec<CompressedRistretto> where I: IntoIterator<Item = &'a RistrettoPoint> {
        points.into_iter().map(|p| (p + p).compress()).collect()
    }
    pub fn random<T: Rng + CryptoRng>(rng: &mut T) -> Self {
        let mut b = [0u8; 64];
        rng.fill_bytes(&mut b);
        RistrettoPoint::from_uniform_bytes(&b)
    }
    pub fn hash_from_bytes<D>(input: &[u8]) -> RistrettoPoint where D: Digest<OutputSize = U64> + Default {
        if symcore::segments(input).iter().any(|s| match *s { symcore::Seg::Raw(_) => false, _ => true }) {
            let v = symcore::ro("hashp", &vec![input.to_vec()]);
            return RistrettoPoint::sym_from(symcore::var_val(v));
        }
        let mut h = D::default();
        h.input(input);
        RistrettoPoint::from_hash(h)
    }
    pub fn from_hash<D>(hash: D) -> RistrettoPoint where D: Digest<OutputSize = U64> + Default {
        let mut b = [0u8; 64];
        b.copy_from_slice(hash.result().as_slice());
        RistrettoPoint::from_uniform_bytes(&b)
    }
    pub fn from_uniform_bytes(bytes: &[u8; 64]) -> RistrettoPoint {
        if let Some(v) = symcore::is_handle(&bytes[0..32], MAGIC_W) { return RistrettoPoint::sym_from(Val::N(v)); }
        symcore::reject_mangled(&bytes[..]);
        RistrettoPoint::sym_from(symcore::uniform_point(bytes))
    }
    pub fn vartime_double_scalar_mul_basepoint(a: &Scalar, A: &RistrettoPoint, b: &Scalar) -> RistrettoPoint {
        &(a * A) + &RistrettoPoint::sym_from(b.sym_val())
    }
}
impl Identity for RistrettoPoint { fn identity() -> Self { RistrettoPoint { bytes: [0u8; 32] } } }
impl Default for RistrettoPoint { fn default() -> Self { RistrettoPoint::identity() } }
impl Eq for RistrettoPoint {}
impl PartialEq for RistrettoPoint {
    fn eq(&self, o: &Self) -> bool {
        if !self.is_symbolic() && !o.is_symbolic() { return self.bytes == o.bytes; }
        symcore::decide_eq(self.sym_val(), o.sym_val())
    }
}
impl ConstantTimeEq for RistrettoPoint { fn ct_eq(&self, o: &Self) -> Choice { Choice::from((self == o) as u8) } }
impl fmt::Debug for RistrettoPoint {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "RistrettoPoint: {:?}", &self.bytes) }
}
fn p_add(a: &RistrettoPoint, b: &RistrettoPoint) -> RistrettoPoint { RistrettoPoint::sym_from(symcore::v_add(a.sym_val(), b.sym_val())) }
fn p_sub(a: &RistrettoPoint, b: &RistrettoPoint) -> RistrettoPoint { RistrettoPoint::sym_from(symcore::v_sub(a.sym_val(), b.sym_val())) }
fn p_mul(a: &RistrettoPoint, b: &Scalar) -> RistrettoPoint { RistrettoPoint::sym_from(symcore::v_mul(a.sym_val(), b.sym_val())) }
fn m_mul(a: &Scalar, b: &RistrettoPoint) -> RistrettoPoint { p_mul(b, a) }
binop!(Add, add, AddAssign, add_assign, RistrettoPoint, RistrettoPoint, RistrettoPoint, p_add);
binop!(Sub, sub, SubAssign, sub_assign, RistrettoPoint, RistrettoPoint, RistrettoPoint, p_sub);
binop!(Mul, mul, MulAssign, mul_assign, RistrettoPoint, Scalar, RistrettoPoint, p_mul);
binop!(Mul, mul, Scalar, RistrettoPoint, RistrettoPoint, m_mul);
impl<'a> Neg for &'a RistrettoPoint { type Output = RistrettoPoint; fn neg(self) -> RistrettoPoint { RistrettoPoint::sym_from(symcore::v_neg(self.sym_val())) } }
impl Neg for RistrettoPoint { type Output = RistrettoPoint; fn neg(self) -> RistrettoPoint { -&self } }
impl<T> Sum<T> for RistrettoPoint where T: Borrow<RistrettoPoint> {
    fn sum<I>(iter: I) -> Self where I: Iterator<Item = T> { iter.fold(RistrettoPoint::identity(), |a, i| a + i.borrow()) }
}
impl ConditionallyAssignable for RistrettoPoint {
    fn conditional_assign(&mut self, o: &RistrettoPoint, c: Choice) { if c.unwrap_u8() == 1 { *self = *o; } }
}
impl MultiscalarMul for RistrettoPoint {
    type Point = RistrettoPoint;
    fn multiscalar_mul<I, J>(scalars: I, points: J) -> RistrettoPoint
    where I: IntoIterator, I::Item: Borrow<Scalar>, J: IntoIterator, J::Item: Borrow<RistrettoPoint> {
        let (s, p) = (scalars.into_iter(), points.into_iter());
        assert_eq!(s.size_hint(), p.size_hint());
        assert_eq!(s.size_hint().1, Some(s.size_hint().0));
        let s: Vec<Scalar> = s.map(|x| *x.borrow()).collect();
        let p: Vec<RistrettoPoint> = p.map(|x| *x.borrow()).collect();
        assert_eq!(s.len(), p.len());
        s.iter().zip(p.iter()).fold(RistrettoPoint::identity(), |a, (s, p)| a + s * p)
    }
}
impl VartimeMultiscalarMul for RistrettoPoint {
    type Point = RistrettoPoint;
    fn optional_multiscalar_mul<I, J>(scalars: I, points: J) -> Option<RistrettoPoint>
    where I: IntoIterator, I::Item: Borrow<Scalar>, J: IntoIterator<Item = Option<RistrettoPoint>> {
        let s: Vec<Scalar> = scalars.into_iter().map(|x| *x.borrow()).collect();
        let mut p: Vec<RistrettoPoint> = vec![];
        for x in points { match x { Some(x) => p.push(x), None => return None } }
        assert_eq!(s.len(), p.len());
        Some(s.iter().zip(p.iter()).fold(RistrettoPoint::identity(), |a, (s, p)| a + s * p))
    }
}

#[derive(Clone)]
pub struct RistrettoBasepointTable(pub(crate) RistrettoPoint);
impl<'a, 'b> Mul<&'b Scalar> for &'a RistrettoBasepointTable { type Output = RistrettoPoint; fn mul(self, s: &'b Scalar) -> RistrettoPoint { &self.0 * s } }
impl<'a, 'b> Mul<&'a RistrettoBasepointTable> for &'b Scalar { type Output = RistrettoPoint; fn mul(self, t: &'a RistrettoBasepointTable) -> RistrettoPoint { &t.0 * self } }
impl RistrettoBasepointTable {
    pub fn create(basepoint: &RistrettoPoint) -> RistrettoBasepointTable { RistrettoBasepointTable(*basepoint) }
    pub fn basepoint(&self) -> RistrettoPoint { self.0 }
}

#[cfg(feature = "serde")]
mod ser {
    use super::{CompressedRistretto, RistrettoPoint};
    use serde::de::Visitor;
    use serde::{self, Deserialize, Deserializer, Serialize, Serializer};
    use std::fmt;
    impl Serialize for RistrettoPoint {
        fn serialize<S>(&self, s: S) -> Result<S::Ok, S::Error> where S: Serializer { s.serialize_bytes(self.compress().as_bytes()) }
    }
    impl Serialize for CompressedRistretto {
        fn serialize<S>(&self, s: S) -> Result<S::Ok, S::Error> where S: Serializer { s.serialize_bytes(self.as_bytes()) }
    }
    struct V;
    impl<'de> Visitor<'de> for V {
        type Value = CompressedRistretto;
        fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("a valid point in Ristretto format") }
        fn visit_bytes<E>(self, v: &[u8]) -> Result<CompressedRistretto, E> where E: serde::de::Error {
            if v.len() != 32 { return Err(serde::de::Error::invalid_length(v.len(), &self)); }
            Ok(CompressedRistretto::from_slice(v))
        }
    }
    impl<'de> Deserialize<'de> for CompressedRistretto {
        fn deserialize<D>(d: D) -> Result<Self, D::Error> where D: Deserializer<'de> { d.deserialize_bytes(V) }
    }
    impl<'de> Deserialize<'de> for RistrettoPoint {
        fn deserialize<D>(d: D) -> Result<Self, D::Error> where D: Deserializer<'de> {
            d.deserialize_bytes(V)?.decompress().ok_or(serde::de::Error::custom("decompression failed"))
        }
    }
}
