//! The interface between the scenarios and the symbolic (or, with feature `conc`, replayed) execution.
use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity;
use rand_core::{CryptoRng, Error, RngCore};
use serde::Deserialize;
use serde_json;
use std::cell::RefCell;
use symcore;

thread_local!(static FAILED: RefCell<Vec<String>> = RefCell::new(vec![]));

/// A free scalar.
#[cfg(not(feature = "conc"))]
pub fn scalar(name: &str) -> Scalar { Scalar::sym_from(symcore::var_val(symcore::event_var("in", name))) }
#[cfg(feature = "conc")]
pub fn scalar(_name: &str) -> Scalar { Scalar::from_bytes_mod_order(symcore::tape_next()) }

/// A free point.
pub fn point(name: &str) -> RistrettoPoint {
    &scalar(name) * &::curve25519_dalek::constants::RISTRETTO_BASEPOINT_TABLE
}

pub fn nz_scalar(name: &str) -> Scalar {
    let s = scalar(name);
    assume_ne(&s, &Scalar::zero());
    s
}

pub fn nz_point(name: &str) -> RistrettoPoint {
    let p = point(name);
    assume_ne(&p, &RistrettoPoint::identity());
    p
}

fn force(v: Option<bool>) { symcore::with(|s| s.forced = v) }

/// Restrict everything from here on to `l == r`.
pub fn assume_eq<T: PartialEq>(l: &T, r: &T) {
    force(Some(true));
    let ok = l == r;
    force(None);
    if !ok { symcore::finish("INFEASIBLE", "assumption"); }
}

pub fn assume_ne<T: PartialEq>(l: &T, r: &T) {
    force(Some(false));
    let ok = l != r;
    force(None);
    if !ok { symcore::finish("INFEASIBLE", "assumption"); }
}

pub fn assume(b: bool) { if !b { symcore::finish("INFEASIBLE", "assumption"); } }

/// The property: `ok` holds.
pub fn check(label: &str, ok: bool) {
    if !ok { symcore::finish("FAIL", label); }
    reach(&format!("checked:{}", label));
}

pub fn reach(label: &str) { symcore::with(|s| if !s.reached.iter().any(|l| l == label) { s.reached.push(label.to_string()) }) }
pub fn note(label: &str) { symcore::with(|s| s.notes.push(label.to_string())) }

/// Use another, independent random oracle for challenges from here on.
pub fn set_oracle(k: u32) { symcore::with(|s| s.oracle = k) }
/// Distinct oracle inputs and distinct draws give distinct outputs from here on.
pub fn collision_free() { symcore::with(|s| s.collision_free = true) }
pub fn draws_may_be_zero() { symcore::with(|s| s.draws_nonzero = false) }

/// Forking: the runs numbered `i` and `j` (from the end if negative) hashed the same bytes for their challenges.
pub fn challenges() -> usize { symcore::with(|s| s.challenges.len()) }
pub fn challenge_value(i: usize) -> Scalar {
    let b = symcore::with(|s| s.challenge_out[i]);
    Scalar::from_bytes_mod_order_wide(&b)
}
pub fn draws() -> usize { symcore::with(|s| s.draw_out.len()) }
pub fn draw_value(i: usize) -> Scalar {
    let b = symcore::with(|s| s.draw_out[i]);
    Scalar::from_bytes_mod_order_wide(&b)
}
pub fn seeds() -> usize { symcore::with(|s| s.seeds.len()) }

/// The next draws of 64 bytes, from any generator.
pub fn program(v: &[Scalar]) {
    let p: Vec<[u8; 64]> = v.iter().map(|s| wide(s)).collect();
    symcore::with(|s| s.program = p)
}
pub fn programmed_left() -> usize { symcore::with(|s| { let n = s.program.len(); s.program.clear(); n }) }

#[cfg(not(feature = "conc"))]
fn wide(s: &Scalar) -> [u8; 64] { let mut w = [0u8; 64]; symcore::fill_val(&mut w, s.sym_val()); w }
#[cfg(feature = "conc")]
fn wide(s: &Scalar) -> [u8; 64] { let mut w = [0u8; 64]; w[0..32].copy_from_slice(&s.to_bytes()); w }

#[cfg(not(feature = "conc"))]
fn equal_records(a: &Vec<Vec<u8>>, b: &Vec<Vec<u8>>) -> bool {
    let f = |r: &Vec<Vec<u8>>| -> Vec<Vec<symcore::Seg>> { r.iter().map(|x| symcore::segments(x)).collect() };
    match symcore::match_inputs(&f(a), &f(b)) {
        None => false,
        Some(pairs) => pairs.into_iter().all(|p| symcore::decide_eq(p.0, p.1)),
    }
}
#[cfg(feature = "conc")]
fn equal_records(a: &Vec<Vec<u8>>, b: &Vec<Vec<u8>>) -> bool { a == b }

/// Whether challenges `i` and `j` were computed from the same bytes.
pub fn same_challenge_input(i: usize, j: usize) -> bool {
    let (a, b) = symcore::with(|s| (s.challenges[i].clone(), s.challenges[j].clone()));
    equal_records(&a, &b)
}
pub fn same_seed(i: usize, j: usize) -> bool {
    let (a, b) = symcore::with(|s| (s.seeds[i].clone(), s.seeds[j].clone()));
    equal_records(&a, &b)
}
/// The label and data of the records of challenge `i` which hold neither a point nor a scalar: names and separators.
pub fn names_hashed(i: usize) -> Vec<Vec<u8>> {
    symcore::with(|s| s.challenges[i].clone()).into_iter().filter(|r| r[0] == b'C').filter_map(|r| {
        let n = (r[1] as usize) | (r[2] as usize) << 8;
        let (label, data) = (&r[3..3 + n], &r[7 + n..]);
        if data.len() == 32 { None } else { Some([label, &b"="[..], data].concat()) }
    }).collect()
}
pub fn assume_same_challenge_input(i: usize, j: usize) {
    force(Some(true));
    let ok = same_challenge_input(i, j);
    force(None);
    if !ok { symcore::finish("INFEASIBLE", "challenge inputs of different form"); }
}

pub struct SymRng(pub &'static str);
impl RngCore for SymRng {
    fn next_u32(&mut self) -> u32 { symcore::finish("UNENCODABLE", "next_u32") }
    fn next_u64(&mut self) -> u64 { symcore::finish("UNENCODABLE", "next_u64") }
    fn fill_bytes(&mut self, dest: &mut [u8]) { symcore::entropy(self.0, dest) }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> { Ok(self.fill_bytes(dest)) }
}
impl CryptoRng for SymRng {}

/// Whether two scalars are the same function of the inputs (in a replay: equal).
#[cfg(not(feature = "conc"))]
pub fn identical(a: &Scalar, b: &Scalar) -> bool { symcore::identical(a.sym_val(), b.sym_val()) }
#[cfg(feature = "conc")]
pub fn identical(a: &Scalar, b: &Scalar) -> bool { a == b }
#[cfg(not(feature = "conc"))]
pub fn identical_points(a: &RistrettoPoint, b: &RistrettoPoint) -> bool { symcore::identical(a.sym_val(), b.sym_val()) }
#[cfg(feature = "conc")]
pub fn identical_points(a: &RistrettoPoint, b: &RistrettoPoint) -> bool { a == b }

// Proofs are made and read by the names of their fields.

use serde::de::value::StrDeserializer;
use serde::de::{DeserializeSeed, Deserializer, IntoDeserializer, MapAccess, Visitor};

pub type DErr = serde::de::value::Error;

struct Fields<'a> { get: &'a Fn(&str) -> Scalar, leaf: Option<Scalar> }
struct Map<'a> { get: &'a Fn(&str) -> Scalar, names: &'static [&'static str], i: usize }

impl<'de, 'a> MapAccess<'de> for Map<'a> {
    type Error = DErr;
    fn next_key_seed<K>(&mut self, seed: K) -> Result<Option<K::Value>, DErr> where K: DeserializeSeed<'de> {
        if self.i >= self.names.len() { return Ok(None); }
        let d: StrDeserializer<DErr> = self.names[self.i].into_deserializer();
        seed.deserialize(d).map(Some)
    }
    fn next_value_seed<V>(&mut self, seed: V) -> Result<V::Value, DErr> where V: DeserializeSeed<'de> {
        let n = self.names[self.i];
        self.i += 1;
        let leaf = if n == "responses" { None } else { Some((self.get)(n)) };
        seed.deserialize(Fields { get: self.get, leaf: leaf })
    }
}

impl<'de, 'a> Deserializer<'de> for Fields<'a> {
    type Error = DErr;
    fn deserialize_any<V>(self, visitor: V) -> Result<V::Value, DErr> where V: Visitor<'de> {
        match self.leaf {
            Some(s) => visitor.visit_bytes(&s.to_bytes()),
            None => symcore::finish("UNENCODABLE", "a proof with another structure"),
        }
    }
    fn deserialize_struct<V>(self, _name: &'static str, fields: &'static [&'static str], visitor: V) -> Result<V::Value, DErr>
    where V: Visitor<'de> {
        visitor.visit_map(Map { get: self.get, names: fields, i: 0 })
    }
    forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct
        newtype_struct seq tuple tuple_struct map enum identifier ignored_any
    }
}

/// A proof with the scalars `get` gives for its field names.
pub fn craft<T>(get: &Fn(&str) -> Scalar) -> T where T: for<'de> Deserialize<'de> {
    match T::deserialize(Fields { get: get, leaf: None }) {
        Ok(t) => t,
        Err(_) => symcore::finish("UNENCODABLE", "cannot make a proof"),
    }
}

/// A proof of free scalars.
pub fn free_proof<T>(tag: &str) -> T where T: for<'de> Deserialize<'de> {
    craft(&|n: &str| scalar(&format!("{}.{}", tag, n)))
}

/// The scalar in field `name` of a proof.
pub fn field<T: ::serde::Serialize>(proof: &T, name: &str) -> Scalar {
    let v = serde_json::to_value(proof).unwrap();
    let leaf = match v.get(name) { Some(x) => x.clone(), None => v["responses"][name].clone() };
    let mut b = [0u8; 32];
    match leaf.as_array() {
        Some(a) if a.len() == 32 => for i in 0..32 { b[i] = a[i].as_u64().unwrap() as u8; },
        _ => symcore::finish("UNENCODABLE", "a proof with other fields"),
    }
    match Scalar::from_canonical_bytes(b) { Some(s) => s, None => symcore::finish("UNENCODABLE", "a scalar in another encoding") }
}
