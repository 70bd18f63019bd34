use proc_macro::TokenStream;
#[proc_macro_attribute]
pub fn handler(_a: TokenStream, i: TokenStream) -> TokenStream { i }
