//! `#[wasm_bindgen]` leaves items as they are.
use proc_macro::TokenStream;

#[proc_macro_attribute]
pub fn wasm_bindgen(_args: TokenStream, item: TokenStream) -> TokenStream { item }
