#![allow(non_snake_case)]
extern crate aeonflux;
extern crate bincode;
extern crate buildtest_alloc;
extern crate credential;
extern crate curve25519_dalek;
extern crate nd;
extern crate rand;
extern crate rand_core;
#[macro_use]
extern crate serde;
extern crate serde_json;
extern crate signal_credential;
extern crate wasm;
extern crate wasm_bindgen;

#[global_allocator]
static WATCHED: prelude::Watched = prelude::Watched;

#[macro_use]
pub mod prelude;
pub mod c;
pub mod decode;
pub mod erase;
#[cfg(feature = "native")]
pub mod flow;
pub mod header;
pub mod js;
pub mod number;
pub mod ops;
pub mod roster;
