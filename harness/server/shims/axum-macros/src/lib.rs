use proc_macro::TokenStream;
#[proc_macro_attribute]
pub fn debug_handler(_a: TokenStream, i: TokenStream) -> TokenStream { i }
