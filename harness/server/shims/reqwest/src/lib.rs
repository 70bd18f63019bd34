//! Stand-in for reqwest: records what is sent and waits for the environment's answer.
use std::future::Future; use std::pin::Pin; use std::task::{Context, Poll};
pub use world::StatusCode;
use world::{world, Answer, AsName, HeaderMap, HeaderValue, Out};
pub mod header { pub const ACCEPT: world::HeaderName = world::HeaderName::of("accept"); pub const AUTHORIZATION: world::HeaderName = world::HeaderName::of("authorization"); pub const CACHE_CONTROL: world::HeaderName = world::HeaderName::of("cache-control"); pub const CONNECTION: world::HeaderName = world::HeaderName::of("connection"); pub const CONTENT_ENCODING: world::HeaderName = world::HeaderName::of("content-encoding"); pub const CONTENT_LENGTH: world::HeaderName = world::HeaderName::of("content-length"); pub const CONTENT_TYPE: world::HeaderName = world::HeaderName::of("content-type"); pub const COOKIE: world::HeaderName = world::HeaderName::of("cookie"); pub const ETAG: world::HeaderName = world::HeaderName::of("etag"); pub const EXPIRES: world::HeaderName = world::HeaderName::of("expires"); pub const HOST: world::HeaderName = world::HeaderName::of("host"); pub const LOCATION: world::HeaderName = world::HeaderName::of("location"); pub const PRAGMA: world::HeaderName = world::HeaderName::of("pragma"); pub const SET_COOKIE: world::HeaderName = world::HeaderName::of("set-cookie"); pub const TE: world::HeaderName = world::HeaderName::of("te"); pub const TRAILER: world::HeaderName = world::HeaderName::of("trailer"); pub const TRANSFER_ENCODING: world::HeaderName = world::HeaderName::of("transfer-encoding"); pub const UPGRADE: world::HeaderName = world::HeaderName::of("upgrade"); pub const USER_AGENT: world::HeaderName = world::HeaderName::of("user-agent"); pub const VARY: world::HeaderName = world::HeaderName::of("vary");  pub use world::{HeaderMap, HeaderName, HeaderValue}; }
#[derive(Debug)]
pub struct Error;
impl std::error::Error for Error {}
impl Error { pub fn is_timeout(&self) -> bool { false } pub fn is_connect(&self) -> bool { false } pub fn is_body(&self) -> bool { false } pub fn status(&self) -> Option<StatusCode> { None } }
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("network error") } }
pub use world::Method;
#[derive(Clone, Default)]
pub struct Client;
pub struct RequestBuilder { method: String, url: String, headers: HeaderMap, body: Option<Vec<u8>> }
impl Client {
    pub fn new() -> Client { Client }
    fn b(&self, m: &str, u: impl ToString) -> RequestBuilder { RequestBuilder { method: m.to_string(), url: u.to_string(), headers: HeaderMap::new(), body: None } }
    pub fn get(&self, u: impl ToString) -> RequestBuilder { self.b("GET", u) }
    pub fn post(&self, u: impl ToString) -> RequestBuilder { self.b("POST", u) }
    pub fn put(&self, u: impl ToString) -> RequestBuilder { self.b("PUT", u) }
    pub fn patch(&self, u: impl ToString) -> RequestBuilder { self.b("PATCH", u) }
    pub fn delete(&self, u: impl ToString) -> RequestBuilder { self.b("DELETE", u) }
    pub fn request(&self, m: Method, u: impl ToString) -> RequestBuilder { self.b(m.as_str(), u) }
    pub fn head(&self, u: impl ToString) -> RequestBuilder { self.b("HEAD", u) }
    pub fn builder() -> ClientBuilder { ClientBuilder }
    pub async fn execute(&self, r: Request) -> Result<Response, Error> { r.0.send().await }
}
pub struct ClientBuilder;
impl ClientBuilder { pub fn timeout(self, _: std::time::Duration) -> Self { self } pub fn connect_timeout(self, _: std::time::Duration) -> Self { self } pub fn redirect(self, _: redirect::Policy) -> Self { self } pub fn user_agent(self, _: &str) -> Self { self } pub fn build(self) -> Result<Client, Error> { Ok(Client) } }
pub mod redirect { pub struct Policy; impl Policy { pub fn none() -> Self { Policy } pub fn limited(_: usize) -> Self { Policy } } }
pub struct Request(RequestBuilder);
impl RequestBuilder {
    pub fn json<T: serde::Serialize + ?Sized>(mut self, v: &T) -> Self { if !self.headers.contains_key("content-type") { self.headers.append("content-type", "application/json".into()); } self.body = serde_json::to_vec(v).ok(); self }
    pub fn timeout(self, _: std::time::Duration) -> Self { self }
    pub fn bearer_auth(self, t: impl std::fmt::Display) -> Self { self.header("authorization", format!("Bearer {t}")) }
    pub fn build(self) -> Result<Request, Error> { Ok(Request(self)) }
    pub fn try_clone(&self) -> Option<RequestBuilder> { Some(RequestBuilder { method: self.method.clone(), url: self.url.clone(), headers: self.headers.clone(), body: self.body.clone() }) }
    pub fn header(mut self, k: impl AsName, v: impl Into<HeaderValue>) -> Self { self.headers.append(k, v.into()); self }
    pub fn headers(mut self, h: HeaderMap) -> Self { for (k, v) in h.0 { self.headers.insert(k, v); } self }
    pub fn body(mut self, b: impl Into<Vec<u8>>) -> Self { self.body = Some(b.into()); self }
    pub fn send(self) -> Send { Send { req: Some(self), at: 0 } }
}
pub struct Send { req: Option<RequestBuilder>, at: usize }
impl Future for Send {
    type Output = Result<Response, Error>;
    fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> {
        if let Some(r) = self.req.take() { self.at = world(|w| { w.outs.push(Out { method: r.method, url: r.url, headers: r.headers, body: r.body, answer: None, taken: false, dropped: false }); w.outs.len() - 1 }); }
        let a = world(|w| { let o = &mut w.outs[self.at]; if o.answer.is_some() { o.taken = true; } o.answer.clone() });
        match a { None => Poll::Pending, Some(Answer::NetError) => Poll::Ready(Err(Error)), Some(Answer::BodyError(s, h)) => Poll::Ready(Ok(Response { status: s, headers: h, body: None })), Some(Answer::Ok(s, h, b)) => Poll::Ready(Ok(Response { status: s, headers: h, body: Some(b) })) }
    }
}
impl Drop for Send { fn drop(&mut self) { if self.req.is_none() { let at = self.at; world(|w| w.outs[at].dropped = true) } } }
pub struct Response { status: u16, headers: HeaderMap, body: Option<Vec<u8>> }
pub struct Bytes(Vec<u8>);
impl Bytes { pub fn to_vec(&self) -> Vec<u8> { self.0.clone() } }
impl std::ops::Deref for Bytes { type Target = [u8]; fn deref(&self) -> &[u8] { &self.0 } }
impl From<Bytes> for Vec<u8> { fn from(b: Bytes) -> Vec<u8> { b.0 } }
impl AsRef<[u8]> for Bytes { fn as_ref(&self) -> &[u8] { &self.0 } }
impl Response {
    pub fn status(&self) -> StatusCode { StatusCode(self.status) }
    pub fn headers(&self) -> &HeaderMap { &self.headers }
    pub fn headers_mut(&mut self) -> &mut HeaderMap { &mut self.headers }
    pub fn content_length(&self) -> Option<u64> { self.body.as_ref().map(|b| b.len() as u64) }
    pub fn error_for_status(self) -> Result<Response, Error> { if self.status >= 400 { Err(Error) } else { Ok(self) } }
    pub async fn json<T: serde::de::DeserializeOwned>(self) -> Result<T, Error> { serde_json::from_slice(&self.body.ok_or(Error)?).map_err(|_| Error) }
    pub async fn bytes(self) -> Result<Bytes, Error> { self.body.map(Bytes).ok_or(Error) }
    pub async fn text(self) -> Result<String, Error> { Ok(String::from_utf8_lossy(&self.body.ok_or(Error)?).into_owned()) }
}
pub async fn get(u: impl ToString) -> Result<Response, Error> { Client.get(u).send().await }
