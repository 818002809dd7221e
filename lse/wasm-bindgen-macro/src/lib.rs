//! The functions themselves, without the glue to JavaScript.
extern crate proc_macro;
use proc_macro::TokenStream;
#[proc_macro_attribute]
pub fn wasm_bindgen(_a: TokenStream, item: TokenStream) -> TokenStream { item }
