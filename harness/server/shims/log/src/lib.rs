//! The server's own log output goes nowhere (the program's logger is the real one).
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Level { Error, Warn, Info, Debug, Trace }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum LevelFilter { Off, Error, Warn, Info, Debug, Trace }
#[macro_export]
macro_rules! log { ($l:expr, $($t:tt)*) => { { let _: $crate::Level = $l; let _ = format_args!($($t)*); } } }
#[macro_export]
macro_rules! error { ($($t:tt)*) => { { let _ = format_args!($($t)*); $crate::count(); } } }
#[macro_export]
macro_rules! warn { ($($t:tt)*) => { { $crate::line('w', format_args!($($t)*)); } } }
#[macro_export]
macro_rules! info { ($($t:tt)*) => { { $crate::line('i', format_args!($($t)*)); } } }
#[macro_export]
macro_rules! debug { ($($t:tt)*) => { { let _ = format_args!($($t)*); } } }
#[macro_export]
macro_rules! trace { ($($t:tt)*) => { { let _ = format_args!($($t)*); } } }
pub fn count() { world::world(|w| w.errors += 1) }
pub fn line(level: char, a: core::fmt::Arguments) { if world::world(|w| w.keep_logs) { let s = world::text_of(a); world::world(|w| w.logs.push((level, s))) } }
