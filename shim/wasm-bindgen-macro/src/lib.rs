//! Stand-in: the attribute leaves the item as it is.
use proc_macro::TokenStream;
#[proc_macro_attribute]
pub fn wasm_bindgen(_attr: TokenStream, item: TokenStream) -> TokenStream {
    item
}
