#![no_std]
#![feature(prelude_import)]
#![allow(internal_features)]
#[macro_use]
extern crate stdx as std;
#[prelude_import]
#[allow(unused_imports)]
use std::prelude::rust_2021::*;

/// Errors a macro reports to the compiler.
macro_rules! emit_error { ($s:expr, $($t:tt)*) => { { let _ = $s; crate::include::error(format!($($t)*)) } }; }
/// The macro that includes files.
pub mod macros {
    #[path = "/repo/crates/vertigo-macro/src/include_static.rs"]
    pub mod include_static;
    #[path = "/repo/crates/vertigo-macro/src/wasm_path.rs"]
    pub mod wasm_path;
}
#[path = "/repo/crates/vertigo-cli/src/serve/mod.rs"]
pub mod serve;
#[path = "/repo/crates/vertigo-cli/src/build/mod.rs"]
pub mod build;
#[path = "/repo/crates/vertigo-cli/src/watch/mod.rs"]
pub mod watch;
#[path = "/repo/crates/vertigo-cli/src/new/mod.rs"]
pub mod new;
pub use serve::ServeOpts;
#[path = "/repo/crates/vertigo-cli/src/commons/mod.rs"]
pub mod commons;

#[path = "../../client/src/codec.rs"]
pub mod codec;
pub mod base;
pub mod dom;
pub mod html;
pub mod requests;
pub mod host;
pub mod bodies;
pub mod whole;
pub mod cargo;
pub mod build_cmd;
pub mod new_cmd;
pub mod watch_cmd;
pub mod include;
