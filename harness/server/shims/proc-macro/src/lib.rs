//! The compiler's side of a macro: the tokens it is given and the file it is used in.
use std::cell::RefCell;
thread_local! { static SOURCE: RefCell<String> = RefCell::new(String::new()); }
pub fn set_source(p: &str) { SOURCE.with(|s| *s.borrow_mut() = p.to_string()) }
#[derive(Clone)]
pub struct TokenStream(pub String);
impl std::fmt::Display for TokenStream { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
#[derive(Clone, Copy)]
pub struct Span;
pub struct SourceFile(stdx::path::PathBuf);
impl Span { pub fn call_site() -> Span { Span } pub fn mixed_site() -> Span { Span } pub fn source_file(&self) -> SourceFile { SourceFile(SOURCE.with(|s| s.borrow().clone()).into()) } }
impl SourceFile { pub fn path(&self) -> stdx::path::PathBuf { self.0.clone() } pub fn is_real(&self) -> bool { true } }
