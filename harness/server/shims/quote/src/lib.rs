//! `quote!` of one interpolated text.
pub struct Tokens(pub String);
impl From<Tokens> for proc_macro::TokenStream { fn from(t: Tokens) -> Self { proc_macro::TokenStream(t.0) } }
pub fn literal(s: impl AsRef<str>) -> Tokens { let mut o = String::from("\""); for c in s.as_ref().chars() { if c == '"' || c == '\\' { o.push('\\'); } o.push(c); } o.push('"'); Tokens(o) }
#[macro_export]
macro_rules! quote { (# $i:ident) => { $crate::literal(&$i) }; ($s:literal) => { $crate::literal($s) }; }
