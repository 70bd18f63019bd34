use proc_macro::TokenStream;
#[proc_macro_derive(Args, attributes(arg, clap, command))]
pub fn args(_i: TokenStream) -> TokenStream { TokenStream::new() }
#[proc_macro_derive(Parser, attributes(arg, clap, command))]
pub fn parser(_i: TokenStream) -> TokenStream { TokenStream::new() }
#[proc_macro_derive(Subcommand, attributes(arg, clap, command))]
pub fn subcommand(_i: TokenStream) -> TokenStream { TokenStream::new() }
