//! A stand-in for `curve25519-dalek` 0.21: scalars and points are symbolic (see `symcore`), with the public interface of
//! the original.  Concrete values keep their real encodings and real arithmetic.
#![allow(non_snake_case)]
extern crate digest;
extern crate generic_array;
extern crate rand;
#[cfg(feature = "serde")]
extern crate serde;
extern crate subtle;
extern crate symcore;

#[macro_use]
mod macros;
pub mod constants;
pub mod ristretto;
pub mod scalar;
pub mod traits;
