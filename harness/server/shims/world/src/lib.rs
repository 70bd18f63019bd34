//! The outside of the server: virtual time, tasks, the network, the file system, and the plain data
//! types shared by the stand-ins for axum, reqwest, tokio and wasmtime.
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct HeaderValue(pub Vec<u8>);
#[derive(Debug)]
pub struct ToStrError;
impl std::fmt::Display for ToStrError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("failed to convert header to a str") } }
#[derive(Debug)]
pub struct Invalid(pub &'static str);
impl std::fmt::Display for Invalid { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(self.0) } }
fn value_ok(b: &[u8]) -> bool { for c in b { if !((*c >= 32 && *c != 127) || *c == 9) { return false; } } true }
impl HeaderValue {
    pub fn from_static(s: &'static str) -> Self { HeaderValue(s.as_bytes().to_vec()) }
    pub fn from_bytes(b: &[u8]) -> Result<Self, Invalid> { if value_ok(b) { Ok(HeaderValue(b.to_vec())) } else { Err(Invalid("failed to parse header value")) } }
    pub fn from_str(s: &str) -> Result<Self, Invalid> { HeaderValue::from_bytes(s.as_bytes()) }
    pub fn to_str(&self) -> Result<&str, ToStrError> { for b in &self.0 { if !((*b >= 32 && *b < 127) || *b == 9) { return Err(ToStrError); } } Ok(unsafe { std::str::from_utf8_unchecked(&self.0) }) }
    pub fn as_bytes(&self) -> &[u8] { &self.0 }
    pub fn len(&self) -> usize { self.0.len() }
    pub fn is_empty(&self) -> bool { self.0.is_empty() }
}
impl AsRef<[u8]> for HeaderValue { fn as_ref(&self) -> &[u8] { &self.0 } }
impl std::str::FromStr for HeaderValue { type Err = Invalid; fn from_str(s: &str) -> Result<Self, Invalid> { HeaderValue::from_bytes(s.as_bytes()) } }
impl From<String> for HeaderValue { fn from(s: String) -> Self { HeaderValue(s.into_bytes()) } }
impl From<&String> for HeaderValue { fn from(s: &String) -> Self { HeaderValue(s.clone().into_bytes()) } }
impl From<&str> for HeaderValue { fn from(s: &str) -> Self { HeaderValue(s.as_bytes().to_vec()) } }
impl From<&[u8]> for HeaderValue { fn from(s: &[u8]) -> Self { HeaderValue(s.to_vec()) } }
impl From<&HeaderValue> for HeaderValue { fn from(s: &HeaderValue) -> Self { s.clone() } }
macro_rules! header_num { ($($t:ty),*) => { $(impl From<$t> for HeaderValue { fn from(n: $t) -> Self { HeaderValue(n.to_string().into_bytes()) } })* } }
header_num!(u16, u32, u64, usize, i32, i64);
impl PartialEq<str> for HeaderValue { fn eq(&self, o: &str) -> bool { self.0 == o.as_bytes() } }
impl PartialEq<&str> for HeaderValue { fn eq(&self, o: &&str) -> bool { self.0 == o.as_bytes() } }
impl PartialEq<String> for HeaderValue { fn eq(&self, o: &String) -> bool { self.0 == o.as_bytes() } }
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct HeaderName(pub std::borrow::Cow<'static, str>);
impl HeaderName {
    pub const fn of(s: &'static str) -> Self { HeaderName(std::borrow::Cow::Borrowed(s)) }
    pub const fn from_static(s: &'static str) -> Self { HeaderName(std::borrow::Cow::Borrowed(s)) }
    pub fn from_bytes(b: &[u8]) -> Result<Self, Invalid> { if b.is_empty() { return Err(Invalid("invalid HTTP header name")); } for c in b { if !(c.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(c)) { return Err(Invalid("invalid HTTP header name")); } } Ok(HeaderName(String::from_utf8_lossy(b).to_ascii_lowercase().into())) }
    pub fn as_str(&self) -> &str { &self.0 }
}
impl std::str::FromStr for HeaderName { type Err = Invalid; fn from_str(s: &str) -> Result<Self, Invalid> { HeaderName::from_bytes(s.as_bytes()) } }
impl TryFrom<&str> for HeaderName { type Error = Invalid; fn try_from(s: &str) -> Result<Self, Invalid> { HeaderName::from_bytes(s.as_bytes()) } }
impl TryFrom<&String> for HeaderName { type Error = Invalid; fn try_from(s: &String) -> Result<Self, Invalid> { HeaderName::from_bytes(s.as_bytes()) } }
impl TryFrom<String> for HeaderName { type Error = Invalid; fn try_from(s: String) -> Result<Self, Invalid> { HeaderName::from_bytes(s.as_bytes()) } }
impl std::fmt::Display for HeaderName { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
impl AsRef<str> for HeaderName { fn as_ref(&self) -> &str { &self.0 } }
impl PartialEq<str> for HeaderName { fn eq(&self, o: &str) -> bool { self.0.eq_ignore_ascii_case(o) } }
impl PartialEq<&str> for HeaderName { fn eq(&self, o: &&str) -> bool { self.0.eq_ignore_ascii_case(o) } }
pub trait AsName { fn name(&self) -> String; }
impl AsName for HeaderName { fn name(&self) -> String { self.0.to_string() } }
impl AsName for &HeaderName { fn name(&self) -> String { self.0.to_string() } }
impl AsName for &str { fn name(&self) -> String { self.to_ascii_lowercase() } }
impl AsName for String { fn name(&self) -> String { self.to_ascii_lowercase() } }
impl AsName for &String { fn name(&self) -> String { self.to_ascii_lowercase() } }
/// Names are kept in lower case, in the order of insertion.
#[derive(Clone, Debug, Default)]
pub struct HeaderMap(pub Vec<(HeaderName, HeaderValue)>);
impl HeaderMap {
    pub fn new() -> Self { HeaderMap(Vec::new()) }
    pub fn with_capacity(_: usize) -> Self { HeaderMap(Vec::new()) }
    pub fn get(&self, k: impl AsName) -> Option<&HeaderValue> { let k = k.name(); self.0.iter().find(|h| h.0 .0 == k).map(|h| &h.1) }
    pub fn get_mut(&mut self, k: impl AsName) -> Option<&mut HeaderValue> { let k = k.name(); self.0.iter_mut().find(|h| h.0 .0 == k).map(|h| &mut h.1) }
    pub fn get_all(&self, k: impl AsName) -> std::vec::IntoIter<&HeaderValue> { let k = k.name(); self.0.iter().filter(|h| h.0 .0 == k).map(|h| &h.1).collect::<Vec<_>>().into_iter() }
    pub fn contains_key(&self, k: impl AsName) -> bool { self.get(k).is_some() }
    pub fn insert(&mut self, k: impl AsName, v: HeaderValue) -> Option<HeaderValue> { let k = k.name(); let old = self.get(k.as_str()).cloned(); self.0.retain(|h| h.0 .0 != k); self.0.push((HeaderName(k.into()), v)); old }
    pub fn append(&mut self, k: impl AsName, v: HeaderValue) -> bool { let k = k.name(); let had = self.contains_key(k.as_str()); self.0.push((HeaderName(k.into()), v)); had }
    pub fn remove(&mut self, k: impl AsName) -> Option<HeaderValue> { let k = k.name(); let old = self.get(k.as_str()).cloned(); self.0.retain(|h| h.0 .0 != k); old }
    pub fn iter(&self) -> std::vec::IntoIter<(&HeaderName, &HeaderValue)> { self.0.iter().map(|h| (&h.0, &h.1)).collect::<Vec<_>>().into_iter() }
    pub fn keys(&self) -> impl Iterator<Item = &HeaderName> { self.0.iter().map(|h| &h.0) }
    pub fn values(&self) -> impl Iterator<Item = &HeaderValue> { self.0.iter().map(|h| &h.1) }
    pub fn len(&self) -> usize { self.0.len() }
    pub fn is_empty(&self) -> bool { self.0.is_empty() }
    pub fn clear(&mut self) { self.0.clear() }
}
impl IntoIterator for HeaderMap { type Item = (Option<HeaderName>, HeaderValue); type IntoIter = std::vec::IntoIter<(Option<HeaderName>, HeaderValue)>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter().map(|h| (Some(h.0), h.1)).collect::<Vec<_>>().into_iter() } }
impl<'a> IntoIterator for &'a HeaderMap { type Item = (&'a HeaderName, &'a HeaderValue); type IntoIter = std::vec::IntoIter<(&'a HeaderName, &'a HeaderValue)>; fn into_iter(self) -> Self::IntoIter { self.iter() } }
impl FromIterator<(HeaderName, HeaderValue)> for HeaderMap { fn from_iter<I: IntoIterator<Item = (HeaderName, HeaderValue)>>(i: I) -> Self { let mut m = HeaderMap::new(); m.extend(i); m } }
impl Extend<(HeaderName, HeaderValue)> for HeaderMap { fn extend<I: IntoIterator<Item = (HeaderName, HeaderValue)>>(&mut self, i: I) { for (k, v) in i { self.insert(k, v); } } }
impl Extend<(Option<HeaderName>, HeaderValue)> for HeaderMap { fn extend<I: IntoIterator<Item = (Option<HeaderName>, HeaderValue)>>(&mut self, i: I) { for (k, v) in i { if let Some(k) = k { self.append(k, v); } } } }
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub struct StatusCode(pub u16);
macro_rules! codes { ($($n:ident $v:literal $t:literal),* $(,)?) => { impl StatusCode { $(pub const $n: StatusCode = StatusCode($v);)* pub fn canonical_reason(&self) -> Option<&'static str> { match self.0 { $($v => Some($t),)* _ => None } } } } }
codes!(CONTINUE 100 "Continue", SWITCHING_PROTOCOLS 101 "Switching Protocols", OK 200 "OK", CREATED 201 "Created", ACCEPTED 202 "Accepted", NON_AUTHORITATIVE_INFORMATION 203 "Non Authoritative Information", NO_CONTENT 204 "No Content", RESET_CONTENT 205 "Reset Content", PARTIAL_CONTENT 206 "Partial Content", MULTIPLE_CHOICES 300 "Multiple Choices", MOVED_PERMANENTLY 301 "Moved Permanently", FOUND 302 "Found", SEE_OTHER 303 "See Other", NOT_MODIFIED 304 "Not Modified", TEMPORARY_REDIRECT 307 "Temporary Redirect", PERMANENT_REDIRECT 308 "Permanent Redirect", BAD_REQUEST 400 "Bad Request", UNAUTHORIZED 401 "Unauthorized", FORBIDDEN 403 "Forbidden", NOT_FOUND 404 "Not Found", METHOD_NOT_ALLOWED 405 "Method Not Allowed", NOT_ACCEPTABLE 406 "Not Acceptable", REQUEST_TIMEOUT 408 "Request Timeout", CONFLICT 409 "Conflict", GONE 410 "Gone", LENGTH_REQUIRED 411 "Length Required", PAYLOAD_TOO_LARGE 413 "Payload Too Large", URI_TOO_LONG 414 "URI Too Long", UNSUPPORTED_MEDIA_TYPE 415 "Unsupported Media Type", IM_A_TEAPOT 418 "I'm a teapot", UNPROCESSABLE_ENTITY 422 "Unprocessable Entity", TOO_MANY_REQUESTS 429 "Too Many Requests", INTERNAL_SERVER_ERROR 500 "Internal Server Error", NOT_IMPLEMENTED 501 "Not Implemented", BAD_GATEWAY 502 "Bad Gateway", SERVICE_UNAVAILABLE 503 "Service Unavailable", GATEWAY_TIMEOUT 504 "Gateway Timeout");
impl StatusCode {
    pub fn is_informational(&self) -> bool { self.0 >= 100 && self.0 < 200 }
    pub fn is_success(&self) -> bool { self.0 >= 200 && self.0 < 300 }
    pub fn is_redirection(&self) -> bool { self.0 >= 300 && self.0 < 400 }
    pub fn is_client_error(&self) -> bool { self.0 >= 400 && self.0 < 500 }
    pub fn is_server_error(&self) -> bool { self.0 >= 500 && self.0 < 600 }
    pub fn as_u16(&self) -> u16 { self.0 }
    pub fn from_u16(v: u16) -> Result<Self, Invalid> { if v < 100 || v >= 1000 { Err(Invalid("invalid status code")) } else { Ok(StatusCode(v)) } }
}
impl TryFrom<u16> for StatusCode { type Error = Invalid; fn try_from(v: u16) -> Result<Self, Invalid> { StatusCode::from_u16(v) } }
impl From<StatusCode> for u16 { fn from(s: StatusCode) -> u16 { s.0 } }
impl PartialEq<u16> for StatusCode { fn eq(&self, o: &u16) -> bool { self.0 == *o } }
impl std::fmt::Display for StatusCode { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.0)?; if let Some(r) = self.canonical_reason() { write!(f, " {r}")?; } Ok(()) } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Method(pub std::borrow::Cow<'static, str>);
macro_rules! method { ($($n:ident $v:literal),*) => { impl Method { $(pub const $n: Method = Method(std::borrow::Cow::Borrowed($v));)* pub fn as_str(&self) -> &str { &self.0 } pub fn from_bytes(b: &[u8]) -> Result<Method, Invalid> { if b.is_empty() { return Err(Invalid("invalid HTTP method")); } for c in b { if !(c.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(c)) { return Err(Invalid("invalid HTTP method")); } } Ok(Method(String::from_utf8_lossy(b).into_owned().into())) } } } }
method!(GET "GET", POST "POST", PUT "PUT", PATCH "PATCH", DELETE "DELETE", HEAD "HEAD", OPTIONS "OPTIONS", TRACE "TRACE", CONNECT "CONNECT");
impl std::str::FromStr for Method { type Err = Invalid; fn from_str(s: &str) -> Result<Method, Invalid> { Method::from_bytes(s.as_bytes()) } }
impl TryFrom<&str> for Method { type Error = Invalid; fn try_from(s: &str) -> Result<Method, Invalid> { Method::from_bytes(s.as_bytes()) } }
impl std::fmt::Display for Method { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Uri { pub path: String, pub query: Option<String>, both: String }
pub struct PathAndQuery<'a>(&'a Uri);
impl<'a> PathAndQuery<'a> { pub fn as_str(&self) -> &'a str { &self.0.both } pub fn path(&self) -> &'a str { &self.0.path } pub fn query(&self) -> Option<&'a str> { self.0.query.as_deref() } }
impl<'a> std::fmt::Display for PathAndQuery<'a> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0.both) } }
impl Uri {
    pub fn of(path: String, query: Option<String>) -> Uri { let mut both = path.clone(); if let Some(q) = &query { both.push('?'); both.push_str(q); } Uri { path, query, both } }
    pub fn parse(s: &str) -> Uri { match s.find('?') { Some(i) => Uri::of(s[..i].to_string(), Some(s[i + 1..].to_string())), None => Uri::of(s.to_string(), None) } }
    pub fn path(&self) -> &str { &self.path }
    pub fn query(&self) -> Option<&str> { self.query.as_deref() }
    pub fn path_and_query(&self) -> Option<PathAndQuery<'_>> { Some(PathAndQuery(self)) }
    pub fn host(&self) -> Option<&str> { None }
    pub fn scheme_str(&self) -> Option<&str> { None }
}
impl std::fmt::Display for Uri { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.both) } }

/// A request the server sent, and the answer the environment gave.
pub struct Out { pub method: String, pub url: String, pub headers: HeaderMap, pub body: Option<Vec<u8>>, pub answer: Option<Answer>, pub taken: bool, pub dropped: bool }
#[derive(Clone)]
pub enum Answer { NetError, BodyError(u16, HeaderMap), Ok(u16, HeaderMap, Vec<u8>) }
pub struct Sleep { pub until: u64, pub fired: bool, pub live: bool }
type Task = Rc<RefCell<TaskSlot>>;
pub struct TaskSlot { pub fut: Option<Pin<Box<dyn Future<Output = ()>>>>, pub done: bool, pub abort: bool }
#[derive(Default)]
pub struct World {
    pub now_ms: u64, pub sleeps: Vec<Sleep>, pub outs: Vec<Out>, pub tasks: Vec<Task>, pub files: Vec<(String, Vec<u8>)>, pub dirs_removed: Vec<String>,
    pub idle: Option<Rc<dyn Fn() -> bool>>, pub serve: Option<Rc<dyn Fn(&dyn App)>>, pub bound: Option<String>, pub aborted: u32,
    pub cwd: String, pub vars: Vec<(String, String)>, pub dirs: Vec<String>, pub read_only: Vec<String>, pub cmds: Vec<Cmd>, pub proc: Option<Rc<dyn Fn(&Cmd) -> Option<(i32, Vec<u8>)>>>, pub on_exit: Option<Rc<dyn Fn(i32)>>,
    /// The server keeps running (until its task is dropped) and is found here.
    pub hold: bool, pub app: Option<Rc<dyn App>>, pub guests: Vec<(Vec<u8>, Rc<dyn Guest>)>, pub errors: u32,
    /// What the server logs, when asked to keep it.
    pub keep_logs: bool, pub logs: Vec<(char, String)>,
}
/// A command that was started.
#[derive(Clone, Default, Debug)]
pub struct Cmd { pub bin: String, pub args: Vec<String>, pub env: Vec<(String, String)>, pub dir: Option<String> }
/// A path without `.` parts, relative to the working directory when it is inside of it.
pub fn place(p: &str) -> String {
    let cwd = world(|w| w.cwd.clone()); let mut o = String::new(); let abs = p.starts_with('/');
    for c in p.split('/') { if c.is_empty() || c == "." { continue; } if c == ".." && !o.is_empty() && !o.ends_with("..") { o.truncate(o.rfind('/').unwrap_or(0)); continue; } if !o.is_empty() || abs { o.push('/'); } o.push_str(c); }
    if !cwd.is_empty() { if o == cwd { return String::new(); } if o.starts_with(&cwd) && o.as_bytes()[cwd.len()] == b'/' { return o[cwd.len() + 1..].to_string(); } }
    o
}
/// Changes the working directory.
pub fn chdir(d: &str) -> String {
    let (files, dirs) = world(|w| (std::mem::take(&mut w.files), std::mem::take(&mut w.dirs)));
    let files: Vec<_> = files.into_iter().map(|f| (absolute(&f.0), f.1)).collect(); let dirs: Vec<_> = dirs.iter().map(|f| absolute(f)).collect();
    let old = world(|w| std::mem::replace(&mut w.cwd, d.to_string()));
    let files = files.into_iter().map(|f| (place(&f.0), f.1)).collect(); let dirs = dirs.iter().map(|f| place(f)).collect(); world(|w| { w.files = files; w.dirs = dirs }); old
}
pub fn absolute(p: &str) -> String { let r = place(p); if r.is_empty() { return world(|w| w.cwd.clone()); } if r.starts_with('/') { r } else { format!("{}/{r}", world(|w| w.cwd.clone())) } }

/// What the web server does with requests (the router built by the program).
pub trait App { fn request(&self, method: &str, url: &str, headers: HeaderMap, body: Vec<u8>) -> Resp; }
#[derive(Clone, Debug)]
pub struct Resp { pub status: u16, pub headers: HeaderMap, pub body: Vec<u8>, pub file: Option<(String, String)> }
pub fn text_of(a: std::fmt::Arguments) -> String { format!("{a}") }
struct Global(RefCell<World>);
unsafe impl Sync for Global {}
thread_local! { static W: Global = Global(RefCell::new(World::default())); }
pub fn world<R>(f: impl FnOnce(&mut World) -> R) -> R { W.with(|w| f(&mut w.0.borrow_mut())) }

fn vt() -> &'static RawWakerVTable { fn c(_: *const ()) -> RawWaker { raw() } fn n(_: *const ()) {} static V: RawWakerVTable = RawWakerVTable::new(c, n, n, n); &V }
fn raw() -> RawWaker { RawWaker::new(std::ptr::null(), vt()) }
pub fn spawn(fut: Pin<Box<dyn Future<Output = ()>>>) -> Task {
    let t: Task = Rc::new(RefCell::new(TaskSlot { fut: Some(fut), done: false, abort: false }));
    world(|w| w.tasks.push(t.clone())); t
}
/// Runs every spawned task once; true when one finished.
pub fn poll_tasks() -> bool {
    let w = unsafe { Waker::from_raw(raw()) }; let mut cx = Context::from_waker(&w);
    let list: Vec<Task> = world(|w| w.tasks.clone()); let mut any = false;
    for t in list {
        let f = { let mut s = t.borrow_mut(); if s.abort { s.done = true; s.fut.take() } else { s.fut.take() } };
        if t.borrow().abort { drop(f); continue; }
        if let Some(mut f) = f {
            if f.as_mut().poll(&mut cx).is_ready() { t.borrow_mut().done = true; any = true; } else { t.borrow_mut().fut = Some(f); }
        }
    }
    world(|w| w.tasks.retain(|t| !t.borrow().done)); any
}
/// Drives a future; when nothing can proceed, the environment (World::idle) makes the next event happen.
pub fn block_on<T>(fut: impl Future<Output = T>) -> Option<T> {
    let mut fut = Box::pin(fut);
    let w = unsafe { Waker::from_raw(raw()) }; let mut cx = Context::from_waker(&w);
    for _ in 0..400 {
        if let Poll::Ready(v) = fut.as_mut().poll(&mut cx) { return Some(v); }
        if poll_tasks() { continue; }
        let idle = world(|w| w.idle.clone());
        match idle { Some(f) if f() => {} _ => return None }
    }
    None
}
pub fn unanswered() -> Vec<usize> { world(|w| (0..w.outs.len()).filter(|i| w.outs[*i].answer.is_none() && !w.outs[*i].dropped).collect()) }
pub fn pending_sleep() -> Option<usize> { world(|w| { let mut b: Option<usize> = None; for i in 0..w.sleeps.len() { let s = &w.sleeps[i]; if s.live && !s.fired && b.map_or(true, |j| w.sleeps[j].until > s.until) { b = Some(i); } } b }) }
pub fn fire_sleep(i: usize) { world(|w| { w.sleeps[i].fired = true; if w.now_ms < w.sleeps[i].until { w.now_ms = w.sleeps[i].until; } }) }

/// Which program the module loader instantiates.
pub trait Guest {
    /// Calls an exported function: Err = trap.
    fn call(&self, name: &str, args: &[u64], imports: &Imports) -> Result<u64, String>;
}
pub struct Imports { pub panic_message: Box<dyn Fn(u32, u32)>, pub dom_access: Box<dyn Fn(u32, u32) -> u32> }
thread_local! { pub static GUEST: RefCell<Option<Rc<dyn Guest>>> = const { RefCell::new(None) }; }
pub fn set_guest(g: Rc<dyn Guest>) { GUEST.with(|x| *x.borrow_mut() = Some(g)); }
