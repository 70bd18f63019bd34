//! Stand-in for notify: the harness reports changes.
use std::cell::RefCell; use stdx::path::{Path, PathBuf};
#[derive(Debug, Clone)] pub struct Event { pub paths: Vec<PathBuf> }
#[derive(Debug)] pub struct Error;
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("watch error") } }
pub type Result<T> = std::result::Result<T, Error>;
#[derive(Clone, Copy, Debug, PartialEq)] pub enum RecursiveMode { Recursive, NonRecursive }
#[derive(Default)] pub struct Config;
impl Config { pub fn with_poll_interval(self, _: std::time::Duration) -> Config { self } }
struct W { f: Box<dyn FnMut(Result<Event>)>, dirs: Vec<(String, RecursiveMode)> }
thread_local! { static ON: RefCell<Option<W>> = const { RefCell::new(None) }; }
pub struct RecommendedWatcher;
impl RecommendedWatcher { pub fn new(f: impl FnMut(Result<Event>) + 'static, _: Config) -> Result<RecommendedWatcher> { ON.with(|o| *o.borrow_mut() = Some(W { f: Box::new(f), dirs: vec![] })); Ok(RecommendedWatcher) } }
impl Drop for RecommendedWatcher { fn drop(&mut self) { let w = ON.with(|o| o.borrow_mut().take()); drop(w) } }
pub trait Watcher { fn watch(&mut self, p: &Path, m: RecursiveMode) -> Result<()>; fn unwatch(&mut self, p: &Path) -> Result<()>; }
impl Watcher for RecommendedWatcher {
    fn watch(&mut self, p: &Path, m: RecursiveMode) -> Result<()> { let p = world::place(&p.to_string_lossy()); ON.with(|o| if let Some(w) = &mut *o.borrow_mut() { w.dirs.push((p, m)) }); Ok(()) }
    fn unwatch(&mut self, p: &Path) -> Result<()> { let p = world::place(&p.to_string_lossy()); ON.with(|o| if let Some(w) = &mut *o.borrow_mut() { w.dirs.retain(|d| d.0 != p) }); Ok(()) }
}
/// Files changed (absolute paths); those under a watched directory are reported in one event.
pub fn change(l: &[&str]) {
    ON.with(|o| { if let Some(w) = &mut *o.borrow_mut() {
        let dirs: Vec<String> = w.dirs.iter().map(|d| world::absolute(&d.0)).collect();
        let paths: Vec<PathBuf> = l.iter().filter(|p| dirs.iter().any(|d| p.len() > d.len() && p.starts_with(&d[..]) && p.as_bytes()[d.len()] == b'/')).map(|p| PathBuf::from(*p)).collect();
        if !paths.is_empty() { (w.f)(Ok(Event { paths })) }
    } })
}
pub fn fault() { ON.with(|o| { if let Some(w) = &mut *o.borrow_mut() { (w.f)(Err(Error)) } }) }
