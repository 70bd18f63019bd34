//! `std` with a virtual clock and file system.
pub use ::std::*;
pub mod time {
    pub use ::std::time::Duration;
    #[derive(Clone, Copy, Debug, PartialEq, PartialOrd)]
    pub struct Instant(u64);
    impl Instant { pub fn now() -> Instant { Instant(world::world(|w| w.now_ms)) } pub fn elapsed(&self) -> Duration { Duration::from_millis(world::world(|w| w.now_ms) - self.0) } }
    #[derive(Clone, Copy, Debug, PartialEq, PartialOrd)]
    pub struct SystemTime(u64);
    pub const UNIX_EPOCH: SystemTime = SystemTime(0);
    #[derive(Debug)]
    pub struct SystemTimeError;
    impl SystemTime { pub const UNIX_EPOCH: SystemTime = SystemTime(0); pub fn now() -> SystemTime { SystemTime(world::world(|w| w.now_ms)) } pub fn duration_since(&self, o: SystemTime) -> Result<Duration, SystemTimeError> { Ok(Duration::from_millis(self.0 - o.0)) } }
}
/// Paths that ask the virtual file system.
pub mod path {
    use ::std::{borrow::{Borrow, Cow}, ffi::{OsStr, OsString}, path as p};
    pub use p::{Component, Components, MAIN_SEPARATOR};
    #[repr(transparent)]
    #[derive(PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct Path(p::Path);
    #[derive(Clone, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct PathBuf(p::PathBuf);
    fn of(x: &p::Path) -> &Path { unsafe { &*(x as *const p::Path as *const Path) } }
    impl Path {
        pub fn new<S: AsRef<OsStr> + ?Sized>(s: &S) -> &Path { of(p::Path::new(s)) }
        pub fn real(&self) -> &p::Path { &self.0 }
        pub fn join(&self, x: impl AsRef<Path>) -> PathBuf { PathBuf(self.0.join(&x.as_ref().0)) }
        pub fn parent(&self) -> Option<&Path> { self.0.parent().map(of) }
        pub fn file_stem(&self) -> Option<&OsStr> { self.0.file_stem() }
        pub fn file_name(&self) -> Option<&OsStr> { self.0.file_name() }
        pub fn extension(&self) -> Option<&OsStr> { self.0.extension() }
        pub fn with_extension(&self, e: impl AsRef<OsStr>) -> PathBuf { PathBuf(self.0.with_extension(e)) }
        pub fn with_file_name(&self, e: impl AsRef<OsStr>) -> PathBuf { PathBuf(self.0.with_file_name(e)) }
        pub fn to_string_lossy(&self) -> Cow<'_, str> { self.0.to_string_lossy() }
        pub fn to_str(&self) -> Option<&str> { self.0.to_str() }
        pub fn as_os_str(&self) -> &OsStr { self.0.as_os_str() }
        pub fn to_path_buf(&self) -> PathBuf { PathBuf(self.0.to_path_buf()) }
        pub fn display(&self) -> p::Display<'_> { self.0.display() }
        pub fn components(&self) -> Components<'_> { self.0.components() }
        pub fn starts_with(&self, x: impl AsRef<Path>) -> bool { self.0.starts_with(&x.as_ref().0) }
        pub fn ends_with(&self, x: impl AsRef<Path>) -> bool { self.0.ends_with(&x.as_ref().0) }
        pub fn strip_prefix(&self, x: impl AsRef<Path>) -> Result<&Path, p::StripPrefixError> { self.0.strip_prefix(&x.as_ref().0).map(of) }
        pub fn is_absolute(&self) -> bool { self.0.is_absolute() || self.0.to_string_lossy().starts_with('/') }
        pub fn is_relative(&self) -> bool { !self.is_absolute() }
        pub fn has_root(&self) -> bool { self.0.has_root() }
        pub fn exists(&self) -> bool { crate::fs::is_file(self) || crate::fs::is_dir(self) }
        pub fn is_file(&self) -> bool { crate::fs::is_file(self) }
        pub fn is_dir(&self) -> bool { crate::fs::is_dir(self) }
        pub fn read_dir(&self) -> ::std::io::Result<crate::fs::ReadDir> { crate::fs::read_dir(self) }
        pub fn canonicalize(&self) -> ::std::io::Result<PathBuf> { Ok(PathBuf(world::absolute(&self.to_string_lossy()).into())) }
    }
    impl PathBuf {
        pub fn new() -> PathBuf { PathBuf(p::PathBuf::new()) }
        pub fn push(&mut self, x: impl AsRef<Path>) { self.0.push(&x.as_ref().0) }
        pub fn pop(&mut self) -> bool { self.0.pop() }
        pub fn set_extension(&mut self, e: impl AsRef<OsStr>) -> bool { self.0.set_extension(e) }
        pub fn set_file_name(&mut self, e: impl AsRef<OsStr>) { self.0.set_file_name(e) }
        pub fn as_path(&self) -> &Path { of(&self.0) }
        pub fn into_os_string(self) -> OsString { self.0.into_os_string() }
    }
    impl ::std::ops::Deref for PathBuf { type Target = Path; fn deref(&self) -> &Path { of(&self.0) } }
    impl Borrow<Path> for PathBuf { fn borrow(&self) -> &Path { self } }
    impl ToOwned for Path { type Owned = PathBuf; fn to_owned(&self) -> PathBuf { self.to_path_buf() } }
    impl ::std::fmt::Debug for Path { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { self.0.fmt(f) } }
    impl ::std::fmt::Debug for PathBuf { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { self.0.fmt(f) } }
    macro_rules! as_path { ($($t:ty),*) => { $(impl AsRef<Path> for $t { fn as_ref(&self) -> &Path { Path::new(self) } })* } }
    as_path!(str, String, OsStr, OsString, Cow<'_, OsStr>);
    impl AsRef<Path> for Path { fn as_ref(&self) -> &Path { self } }
    impl AsRef<Path> for PathBuf { fn as_ref(&self) -> &Path { self } }
    impl AsRef<OsStr> for Path { fn as_ref(&self) -> &OsStr { self.0.as_ref() } }
    impl AsRef<OsStr> for PathBuf { fn as_ref(&self) -> &OsStr { self.0.as_ref() } }
    impl From<String> for PathBuf { fn from(s: String) -> PathBuf { PathBuf(s.into()) } }
    impl From<OsString> for PathBuf { fn from(s: OsString) -> PathBuf { PathBuf(s.into()) } }
    impl<T: ?Sized + AsRef<OsStr>> From<&T> for PathBuf { fn from(s: &T) -> PathBuf { PathBuf(p::PathBuf::from(s)) } }
}
pub mod process {
    use ::std::ffi::OsStr; use ::std::io::{Error, ErrorKind, Result};
    pub use ::std::process::abort;
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct ExitStatus(pub i32);
    impl ExitStatus { pub fn success(&self) -> bool { self.0 == 0 } pub fn code(&self) -> Option<i32> { Some(self.0) } }
    impl ::std::fmt::Display for ExitStatus { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { write!(f, "exit status: {}", self.0) } }
    #[derive(Clone, Debug)]
    pub struct Output { pub status: ExitStatus, pub stdout: Vec<u8>, pub stderr: Vec<u8> }
    pub struct Stdio;
    impl Stdio { pub fn inherit() -> Stdio { Stdio } pub fn null() -> Stdio { Stdio } pub fn piped() -> Stdio { Stdio } }
    impl From<crate::fs::File> for Stdio { fn from(_: crate::fs::File) -> Self { Stdio } }
    pub struct ChildStdout;
    impl From<ChildStdout> for Stdio { fn from(_: ChildStdout) -> Self { Stdio } }
    pub struct Child { pub stdout: Option<ChildStdout>, out: Output }
    impl Child { pub fn wait(&mut self) -> Result<ExitStatus> { Ok(self.out.status) } pub fn wait_with_output(self) -> Result<Output> { Ok(self.out) } pub fn kill(&mut self) -> Result<()> { Ok(()) } }
    pub struct Command(world::Cmd);
    fn s(x: impl AsRef<OsStr>) -> String { x.as_ref().to_string_lossy().into_owned() }
    impl Command {
        pub fn new(b: impl AsRef<OsStr>) -> Command { Command(world::Cmd { bin: s(b), ..Default::default() }) }
        pub fn arg(&mut self, a: impl AsRef<OsStr>) -> &mut Self { self.0.args.push(s(a)); self }
        pub fn args<A: AsRef<OsStr>>(&mut self, l: impl IntoIterator<Item = A>) -> &mut Self { for a in l { self.0.args.push(s(a)); } self }
        pub fn env(&mut self, k: impl AsRef<OsStr>, v: impl AsRef<OsStr>) -> &mut Self { self.0.env.push((s(k), s(v))); self }
        pub fn envs<K: AsRef<OsStr>, W: AsRef<OsStr>>(&mut self, l: impl IntoIterator<Item = (K, W)>) -> &mut Self { for (k, v) in l { self.env(k, v); } self }
        pub fn current_dir(&mut self, d: impl AsRef<crate::path::Path>) -> &mut Self { self.0.dir = Some(d.as_ref().to_string_lossy().into_owned()); self }
        pub fn stdin(&mut self, _: impl Into<Stdio>) -> &mut Self { self }
        pub fn stdout(&mut self, _: impl Into<Stdio>) -> &mut Self { self }
        pub fn stderr(&mut self, _: impl Into<Stdio>) -> &mut Self { self }
        pub fn output(&mut self) -> Result<Output> {
            let f = world::world(|w| { w.cmds.push(self.0.clone()); w.proc.clone() });
            match f.and_then(|f| f(&self.0)) { Some((c, o)) => Ok(Output { status: ExitStatus(c), stdout: o, stderr: Vec::new() }), None => Err(Error::from(ErrorKind::NotFound)) }
        }
        pub fn status(&mut self) -> Result<ExitStatus> { self.output().map(|o| o.status) }
        pub fn spawn(&mut self) -> Result<Child> { self.output().map(|out| Child { stdout: Some(ChildStdout), out }) }
    }
    pub fn exit(c: i32) -> ! { let f = world::world(|w| w.on_exit.clone()); if let Some(f) = f { f(c) } abort() }
}
pub mod fs {
    use ::std::io::{Error, ErrorKind, Result};
    use crate::path::{Path, PathBuf};
    fn key(p: &Path) -> String { world::place(&p.to_string_lossy()) }
    fn inside(d: &str, f: &str) -> bool { d.is_empty() && !f.starts_with('/') || f.len() > d.len() && f.starts_with(d) && f.as_bytes()[d.len()] == b'/' }
    pub(crate) fn is_file(p: &Path) -> bool { let k = key(p); world::world(|w| w.files.iter().any(|f| f.0 == k)) }
    pub(crate) fn is_dir(p: &Path) -> bool { let k = key(p); world::world(|w| w.dirs.contains(&k) || w.files.iter().any(|f| inside(&k, &f.0)) || w.dirs.iter().any(|f| inside(&k, f))) }
    pub fn read(p: impl AsRef<Path>) -> Result<Vec<u8>> { let k = key(p.as_ref()); world::world(|w| w.files.iter().find(|f| f.0 == k).map(|f| f.1.clone())).ok_or(Error::from(ErrorKind::NotFound)) }
    pub fn read_to_string(p: impl AsRef<Path>) -> Result<String> { let b = read(p)?; String::from_utf8(b).map_err(|_| Error::from(ErrorKind::InvalidData)) }
    pub fn write(p: impl AsRef<Path>, c: impl AsRef<[u8]>) -> Result<()> { let k = key(p.as_ref()); if world::world(|w| w.read_only.iter().any(|d| *d == k || inside(d, &k))) { return Err(Error::from(ErrorKind::PermissionDenied)); } if let Some(i) = k.rfind('/') { if i > 0 && !is_dir(Path::new(&k[..i])) { return Err(Error::from(ErrorKind::NotFound)); } } if is_dir(Path::new(&k)) { return Err(Error::from(ErrorKind::PermissionDenied)); } world::world(|w| { w.files.retain(|f| f.0 != k); w.files.push((k, c.as_ref().to_vec())) }); Ok(()) }
    pub fn copy(a: impl AsRef<Path>, b: impl AsRef<Path>) -> Result<u64> { let c = read(a)?; let n = c.len(); write(b, c)?; Ok(n as u64) }
    pub fn rename(a: impl AsRef<Path>, b: impl AsRef<Path>) -> Result<()> { let c = read(a.as_ref())?; write(b, c)?; remove_file(a) }
    pub fn remove_file(p: impl AsRef<Path>) -> Result<()> { if !is_file(p.as_ref()) { return Err(Error::from(ErrorKind::NotFound)); } let k = key(p.as_ref()); stay(&k); world::world(|w| w.files.retain(|f| f.0 != k)); Ok(()) }
    /// A directory stays when the last file in it goes.
    fn stay(k: &str) { if let Some(i) = k.rfind('/') { let d = k[..i].to_string(); world::world(|w| if i > 0 && !w.dirs.contains(&d) { w.dirs.push(d) }) } }
    pub fn remove_dir_all(p: impl AsRef<Path>) -> Result<()> { if !is_dir(p.as_ref()) { return Err(Error::from(ErrorKind::NotFound)); } let k = key(p.as_ref()); stay(&k); world::world(|w| { w.files.retain(|f| !inside(&k, &f.0)); w.dirs.retain(|f| *f != k && !inside(&k, f)); w.dirs_removed.push(k) }); Ok(()) }
    pub fn create_dir_all(p: impl AsRef<Path>) -> Result<()> { let k = key(p.as_ref()); if world::world(|w| w.read_only.iter().any(|d| *d == k || inside(d, &k))) { return Err(Error::from(ErrorKind::PermissionDenied)); } world::world(|w| if !w.dirs.contains(&k) { w.dirs.push(k) }); Ok(()) }
    pub fn create_dir(p: impl AsRef<Path>) -> Result<()> { create_dir_all(p) }
    pub struct DirEntry(PathBuf);
    impl DirEntry { pub fn path(&self) -> PathBuf { self.0.clone() } pub fn file_name(&self) -> ::std::ffi::OsString { self.0.file_name().unwrap_or_default().to_owned() } }
    pub struct ReadDir(::std::vec::IntoIter<DirEntry>);
    impl Iterator for ReadDir { type Item = Result<DirEntry>; fn next(&mut self) -> Option<Self::Item> { self.0.next().map(Ok) } }
    pub fn read_dir(p: impl AsRef<Path>) -> Result<ReadDir> {
        let p = p.as_ref(); if !is_dir(p) { return Err(Error::from(ErrorKind::NotFound)); } let k = key(p); let mut l: Vec<String> = Vec::new();
        world::world(|w| for f in w.files.iter().map(|f| &f.0).chain(w.dirs.iter()) { if inside(&k, f) { let r = if k.is_empty() { &f[..] } else { &f[k.len() + 1..] }; let n = r.split('/').next().unwrap_or(r).to_string(); if !l.contains(&n) { l.push(n); } } });
        Ok(ReadDir(l.into_iter().map(|n| DirEntry(p.join(n))).collect::<Vec<_>>().into_iter()))
    }
    pub struct File(String);
    impl File { pub fn create(p: impl AsRef<Path>) -> Result<File> { let k = key(p.as_ref()); write(&k, b"")?; Ok(File(k)) } }
    impl ::std::io::Write for File {
        fn write(&mut self, b: &[u8]) -> Result<usize> { world::world(|w| if let Some(f) = w.files.iter_mut().find(|f| f.0 == self.0) { f.1.extend_from_slice(b) }); Ok(b.len()) }
        fn flush(&mut self) -> Result<()> { Ok(()) }
    }
}
pub mod env {
    pub use ::std::env::VarError;
    pub fn var(_k: impl AsRef<::std::ffi::OsStr>) -> Result<String, VarError> { world::world(|w| w.vars.iter().find(|v| v.0 == _k.as_ref().to_string_lossy()).map(|v| v.1.clone())).ok_or(VarError::NotPresent) }
    pub fn current_dir() -> ::std::io::Result<crate::path::PathBuf> { Ok(world::world(|w| w.cwd.clone()).into()) }
}
