//! curve25519-dalek 0.21 as far as encodings go.
//!
//! Exact: encodings of scalars (canonicity, reduction of 32 bytes) and of points within the inputs considered, equality.
//! Abstract: every result of arithmetic and hashing is an unconstrained scalar, or an unconstrained one of the points `K`.
//!
//! Of the byte strings only those are considered that are an element of `K` (really the encoding of a point) or have the lowest
//! or the highest bit set (really not the encoding of a point), so that decoding here and in the real crate agree.
#![allow(non_snake_case, dead_code)]
pub mod constants;
pub mod ristretto;
pub mod scalar;
pub mod traits;
