//! Stand-in for axum: routes like axum does (nested services by path prefix, then the fallback) and
//! hands requests of the environment to the handlers the program registered.
use std::future::Future; use std::pin::Pin; use std::rc::Rc;
pub use axum_macros::debug_handler;
use http::{HeaderMap, StatusCode, Uri};
pub mod http { pub use world::{HeaderMap as Map, HeaderValue, StatusCode, Uri, HeaderName, Method}; pub mod header { pub const ACCEPT: world::HeaderName = world::HeaderName::of("accept"); pub const AUTHORIZATION: world::HeaderName = world::HeaderName::of("authorization"); pub const CACHE_CONTROL: world::HeaderName = world::HeaderName::of("cache-control"); pub const CONNECTION: world::HeaderName = world::HeaderName::of("connection"); pub const CONTENT_ENCODING: world::HeaderName = world::HeaderName::of("content-encoding"); pub const CONTENT_LENGTH: world::HeaderName = world::HeaderName::of("content-length"); pub const CONTENT_TYPE: world::HeaderName = world::HeaderName::of("content-type"); pub const COOKIE: world::HeaderName = world::HeaderName::of("cookie"); pub const ETAG: world::HeaderName = world::HeaderName::of("etag"); pub const EXPIRES: world::HeaderName = world::HeaderName::of("expires"); pub const HOST: world::HeaderName = world::HeaderName::of("host"); pub const LOCATION: world::HeaderName = world::HeaderName::of("location"); pub const PRAGMA: world::HeaderName = world::HeaderName::of("pragma"); pub const SET_COOKIE: world::HeaderName = world::HeaderName::of("set-cookie"); pub const TE: world::HeaderName = world::HeaderName::of("te"); pub const TRAILER: world::HeaderName = world::HeaderName::of("trailer"); pub const TRANSFER_ENCODING: world::HeaderName = world::HeaderName::of("transfer-encoding"); pub const UPGRADE: world::HeaderName = world::HeaderName::of("upgrade"); pub const USER_AGENT: world::HeaderName = world::HeaderName::of("user-agent"); pub const VARY: world::HeaderName = world::HeaderName::of("vary");  pub use world::{HeaderMap, HeaderName, HeaderValue}; } pub use world::HeaderMap; }
pub mod body { #[derive(Clone, Debug, PartialEq)] pub struct BoxBody(pub Vec<u8>); }
pub mod response {
    use super::*; use super::body::BoxBody;
    pub struct Response<T = BoxBody> { status: StatusCode, headers: HeaderMap, body: T }
    pub struct Parts { pub status: StatusCode, pub headers: HeaderMap }
    pub struct Builder { status: StatusCode, headers: HeaderMap }
    #[derive(Debug)]
    pub struct Never;
    impl<T> Response<T> {
        pub fn new(body: T) -> Self { Response { status: StatusCode::OK, headers: HeaderMap::new(), body } }
        pub fn status(&self) -> StatusCode { self.status }
        pub fn status_mut(&mut self) -> &mut StatusCode { &mut self.status }
        pub fn headers(&self) -> &HeaderMap { &self.headers }
        pub fn headers_mut(&mut self) -> &mut HeaderMap { &mut self.headers }
        pub fn into_body(self) -> T { self.body }
        pub fn body(&self) -> &T { &self.body }
        pub fn body_mut(&mut self) -> &mut T { &mut self.body }
        pub fn map<U>(self, f: impl FnOnce(T) -> U) -> Response<U> { Response { status: self.status, headers: self.headers, body: f(self.body) } }
        pub fn into_parts(self) -> (Parts, T) { (Parts { status: self.status, headers: self.headers }, self.body) }
        pub fn from_parts(p: Parts, body: T) -> Self { Response { status: p.status, headers: p.headers, body } }
    }
    impl Response<()> { pub fn builder() -> Builder { Builder { status: StatusCode::OK, headers: HeaderMap::new() } } }
    impl Builder {
        pub fn status(mut self, s: impl TryInto<StatusCode>) -> Self { if let Ok(s) = s.try_into() { self.status = s; } self }
        pub fn headers_mut(&mut self) -> Option<&mut HeaderMap> { Some(&mut self.headers) }
        pub fn header(mut self, k: impl world::AsName, v: impl Into<world::HeaderValue>) -> Self { self.headers.append(k, v.into()); self }
        pub fn body<T>(self, body: T) -> Result<Response<T>, Never> { Ok(Response { status: self.status, headers: self.headers, body }) }
    }
    pub trait IntoResponse { fn into_response(self) -> Response<BoxBody>; }
    impl IntoResponse for String { fn into_response(self) -> Response<BoxBody> { let mut r = Response::new(BoxBody(self.into_bytes())); r.headers_mut().insert("content-type", "text/plain; charset=utf-8".into()); r } }
    impl IntoResponse for Vec<u8> { fn into_response(self) -> Response<BoxBody> { let mut r = Response::new(BoxBody(self)); r.headers_mut().insert("content-type", "application/octet-stream".into()); r } }
    impl IntoResponse for Response<BoxBody> { fn into_response(self) -> Response<BoxBody> { self } }
    impl IntoResponse for Response<String> { fn into_response(self) -> Response<BoxBody> { let (status, headers, body) = (self.status, self.headers, self.body); Response { status, headers, body: BoxBody(body.into_bytes()) } } }
    impl IntoResponse for &'static str { fn into_response(self) -> Response<BoxBody> { self.to_string().into_response() } }
    impl IntoResponse for std::borrow::Cow<'static, str> { fn into_response(self) -> Response<BoxBody> { self.into_owned().into_response() } }
    impl IntoResponse for &'static [u8] { fn into_response(self) -> Response<BoxBody> { self.to_vec().into_response() } }
    impl IntoResponse for () { fn into_response(self) -> Response<BoxBody> { Response::new(BoxBody(vec![])) } }
    impl IntoResponse for StatusCode { fn into_response(self) -> Response<BoxBody> { let mut r = Response::new(BoxBody(vec![])); *r.status_mut() = self; r } }
    impl IntoResponse for std::convert::Infallible { fn into_response(self) -> Response<BoxBody> { match self {} } }
    impl<A: IntoResponse, B: IntoResponse> IntoResponse for Result<A, B> { fn into_response(self) -> Response<BoxBody> { match self { Ok(a) => a.into_response(), Err(b) => b.into_response() } } }
    impl<T: IntoResponse> IntoResponse for (HeaderMap, T) { fn into_response(self) -> Response<BoxBody> { let mut r = self.1.into_response(); put(&mut r, self.0); r } }
    impl<T: IntoResponse> IntoResponse for (StatusCode, HeaderMap, T) { fn into_response(self) -> Response<BoxBody> { let mut r = self.2.into_response(); *r.status_mut() = self.0; put(&mut r, self.1); r } }
    impl<K: world::AsName, V: Into<world::HeaderValue>, T: IntoResponse, const N: usize> IntoResponse for ([(K, V); N], T) { fn into_response(self) -> Response<BoxBody> { let mut r = self.1.into_response(); for (k, v) in self.0 { r.headers_mut().insert(k, v.into()); } r } }
    impl<K: world::AsName, V: Into<world::HeaderValue>, T: IntoResponse, const N: usize> IntoResponse for (StatusCode, [(K, V); N], T) { fn into_response(self) -> Response<BoxBody> { let mut r = (self.1, self.2).into_response(); *r.status_mut() = self.0; r } }
    fn put(r: &mut Response<BoxBody>, h: HeaderMap) { for (k, v) in h.0 { r.headers_mut().insert(k, v); } }
    pub struct Html<T>(pub T);
    impl<T: IntoResponse> IntoResponse for Html<T> { fn into_response(self) -> Response<BoxBody> { let mut r = self.0.into_response(); r.headers_mut().insert("content-type", "text/html; charset=utf-8".into()); r } }
    impl<T: IntoResponse> IntoResponse for (StatusCode, T) { fn into_response(self) -> Response<BoxBody> { let mut r = self.1.into_response(); *r.status_mut() = self.0; r } }
}
use response::{IntoResponse, Response}; use body::BoxBody;
pub mod extract {
    pub struct Json<T>(pub T);
    #[derive(Clone, Debug)]
    pub struct RawQuery(pub Option<String>);
    pub struct State<S>(pub S);
}
use extract::*;
pub struct Parts<S> { method: String, uri: Uri, headers: HeaderMap, body: Vec<u8>, state: S }
pub trait FromReq<S>: Sized { fn from(p: &Parts<S>) -> Result<Self, u16>; }
impl<S> FromReq<S> for Uri { fn from(p: &Parts<S>) -> Result<Self, u16> { Ok(p.uri.clone()) } }
impl<S> FromReq<S> for RawQuery { fn from(p: &Parts<S>) -> Result<Self, u16> { Ok(RawQuery(p.uri.query.clone())) } }
impl<S> FromReq<S> for HeaderMap { fn from(p: &Parts<S>) -> Result<Self, u16> { Ok(p.headers.clone()) } }
impl<S: Clone> FromReq<S> for State<S> { fn from(p: &Parts<S>) -> Result<Self, u16> { Ok(State(p.state.clone())) } }
impl<S> FromReq<S> for Json<serde_json::Value> { fn from(p: &Parts<S>) -> Result<Self, u16> {
    let ct = p.headers.get("content-type").and_then(|h| h.to_str().ok()).unwrap_or("").to_string();
    if !ct.starts_with("application/json") { return Err(415); }
    serde_json::from_slice(&p.body).map(Json).map_err(|_| 400) } }
impl<S> FromReq<S> for String { fn from(p: &Parts<S>) -> Result<Self, u16> { String::from_utf8(p.body.clone()).map_err(|_| 400) } }
impl<S> FromReq<S> for Vec<u8> { fn from(p: &Parts<S>) -> Result<Self, u16> { Ok(p.body.clone()) } }
impl<S> FromReq<S> for http::Method { fn from(p: &Parts<S>) -> Result<Self, u16> { Ok(world::Method(p.method.clone().into())) } }
impl<S, T: FromReq<S>> FromReq<S> for Option<T> { fn from(p: &Parts<S>) -> Result<Self, u16> { Ok(T::from(p).ok()) } }
type Fut = Pin<Box<dyn Future<Output = Response<BoxBody>>>>;
pub type Endpoint<S> = Rc<dyn Fn(Parts<S>) -> Fut>;
pub trait Handler<A, S>: Sized { fn endpoint(self) -> Endpoint<S>; }
fn reject(code: u16) -> Fut { Box::pin(async move { let mut r = Response::new(BoxBody(vec![])); *r.status_mut() = StatusCode(code); r }) }
macro_rules! handler { ($($a:ident),*) => {
    impl<F, R, T, S: 'static, $($a: FromReq<S> + 'static),*> Handler<($($a,)*), S> for F where F: FnOnce($($a),*) -> R + Clone + 'static, R: Future<Output = T> + 'static, T: IntoResponse {
        #[allow(non_snake_case, unused_variables)]
        fn endpoint(self) -> Endpoint<S> { Rc::new(move |p: Parts<S>| { $(let $a = match $a::from(&p) { Ok(v) => v, Err(c) => return reject(c) };)* let f = self.clone()($($a),*); Box::pin(async move { f.await.into_response() }) }) }
    } } }
handler!(); handler!(A1); handler!(A1, A2); handler!(A1, A2, A3); handler!(A1, A2, A3, A4);
#[derive(Clone)]
pub struct MethodRouter<S> { on: Vec<(&'static str, Endpoint<S>)>, any: Option<Endpoint<S>> }
macro_rules! methods { ($($f:ident $m:literal),*) => {
    pub mod routing { use super::*; pub use super::MethodRouter; $(pub fn $f<A, S: 'static, H: Handler<A, S>>(h: H) -> MethodRouter<S> { MethodRouter { on: vec![($m, h.endpoint())], any: None } })*
        pub fn any<A, S: 'static, H: Handler<A, S>>(h: H) -> MethodRouter<S> { MethodRouter { on: vec![], any: Some(h.endpoint()) } } }
    impl<S: 'static> MethodRouter<S> { $(pub fn $f<A, H: Handler<A, S>>(mut self, h: H) -> Self { self.on.push(($m, h.endpoint())); self })* pub fn fallback<A, H: Handler<A, S>>(mut self, h: H) -> Self { self.any = Some(h.endpoint()); self } }
} }
methods!(get "GET", post "POST", put "PUT", patch "PATCH", delete "DELETE", head "HEAD", options "OPTIONS");
/// A handler or a method router, as Router::fallback takes both.
pub trait IntoMethods<A, S> { fn methods(self) -> MethodRouter<S>; }
pub struct IsRouter;
impl<S> IntoMethods<IsRouter, S> for MethodRouter<S> { fn methods(self) -> MethodRouter<S> { self } }
impl<A, S: 'static, H: Handler<(A,), S>> IntoMethods<(A,), S> for H { fn methods(self) -> MethodRouter<S> { MethodRouter { on: vec![], any: Some(self.endpoint()) } } }
impl<A, B, S: 'static, H: Handler<(A, B), S>> IntoMethods<(A, B), S> for H { fn methods(self) -> MethodRouter<S> { MethodRouter { on: vec![], any: Some(self.endpoint()) } } }
impl<A, B, C, S: 'static, H: Handler<(A, B, C), S>> IntoMethods<(A, B, C), S> for H { fn methods(self) -> MethodRouter<S> { MethodRouter { on: vec![], any: Some(self.endpoint()) } } }
type Map = Rc<dyn Fn(Response<BoxBody>) -> Fut>;
#[derive(Clone)]
enum Svc { Dir(String), App(Rc<Node>) }
pub struct Node { nested: Vec<(String, Svc, Vec<Map>)>, fallback: Option<Rc<dyn Fn(&str, Uri, HeaderMap, Vec<u8>) -> Option<Fut>>> }
pub struct Router<S = ()> { nested: Vec<(String, Svc, Vec<Map>)>, fallback: Option<MethodRouter<S>>, done: Option<Rc<Node>> }
pub trait IntoSvc { fn svc(self) -> Svcw; }
pub struct Svcw(Svc);
impl IntoSvc for tower_http::services::ServeDir { fn svc(self) -> Svcw { Svcw(Svc::Dir(self.0)) } }
impl IntoSvc for Router<()> { fn svc(self) -> Svcw { Svcw(Svc::App(self.node())) } }
pub struct MapLayer(Map);
pub mod middleware {
    use super::*;
    pub fn map_response<F, R>(f: F) -> MapLayer where F: Fn(Response<BoxBody>) -> R + 'static, R: Future<Output = Response<BoxBody>> + 'static { MapLayer(Rc::new(move |r| { let f = f(r); Box::pin(f) })) }
}
impl<S: Clone + 'static> Router<S> {
    pub fn new() -> Self { Router { nested: Vec::new(), fallback: None, done: None } }
    pub fn nest_service(mut self, path: &str, s: impl IntoSvc) -> Self {
        // axum 0.6 refuses to nest at an empty path or one that does not start with a slash
        if !path.starts_with('/') { panic!("Paths must start with a `/`"); }
        self.nested.push((path.trim_end_matches('/').to_string(), s.svc().0, Vec::new())); self
    }
    pub fn layer(mut self, l: MapLayer) -> Self { for n in self.nested.iter_mut() { n.2.push(l.0.clone()); } self }
    pub fn fallback<A, H: IntoMethods<A, S>>(mut self, h: H) -> Self { self.fallback = Some(h.methods()); self }
    pub fn with_state<S2>(self, s: S) -> Router<S2> { let nested = self.nested.clone(); let n = Rc::new(Node { nested, fallback: self.fallback.map(|m| bind(m, s)) }); Router { nested: Vec::new(), fallback: None, done: Some(n) } }
    fn node(self) -> Rc<Node> { match self.done { Some(n) => n, None => Rc::new(Node { nested: self.nested, fallback: None }) } }
}
/// The router as the server takes it.
pub struct Whole(Rc<Node>);
unsafe impl Send for Whole {} unsafe impl<S> Send for Router<S> {} unsafe impl<S> Send for MethodRouter<S> {} unsafe impl Send for MapLayer {} unsafe impl Send for Svcw {}
unsafe impl Sync for Whole {} unsafe impl<S> Sync for Router<S> {} unsafe impl<S> Sync for MethodRouter<S> {} unsafe impl Sync for MapLayer {} unsafe impl Sync for Svcw {}
impl Router<()> { pub fn into_make_service(self) -> Whole { Whole(self.node()) } }
fn bind<S: Clone + 'static>(m: MethodRouter<S>, s: S) -> Rc<dyn Fn(&str, Uri, HeaderMap, Vec<u8>) -> Option<Fut>> {
    Rc::new(move |method, uri, headers, body| { let at = |n: &str| m.on.iter().find(|o| o.0 == n).map(|o| &o.1); let mut e = at(method); if e.is_none() && method == "HEAD" { e = at("GET"); } if e.is_none() { e = m.any.as_ref(); } e.map(|e| e(Parts { method: method.to_string(), uri, headers, body, state: s.clone() })) })
}
impl Node {
    fn go(&self, method: &str, uri: Uri, headers: HeaderMap, body: Vec<u8>) -> Fut {
        // the longest prefix that ends at a path segment wins
        let mut best: Option<usize> = None;
        for (i, n) in self.nested.iter().enumerate() { if uri.path.starts_with(&n.0) && (uri.path.len() == n.0.len() || uri.path.as_bytes()[n.0.len()] == b'/') && best.map_or(true, |b| self.nested[b].0.len() < n.0.len()) { best = Some(i); } }
        if let Some(i) = best {
            let (pre, svc, maps) = self.nested[i].clone();
            let rest = &uri.path[pre.len()..]; let inner = Uri::of(if rest.is_empty() { "/".into() } else { rest.into() }, uri.query.clone());
            let f: Fut = match svc {
                Svc::Dir(d) => { let p = world::place(&format!("{d}{}", inner.path)); Box::pin(async move { let file = world::world(|w| w.files.iter().find(|f| f.0 == p).map(|f| f.1.clone())); match file { Some(b) => { let mut r = Response::new(BoxBody(b)); r.headers_mut().insert("x-file", p.into()); r } None => { let mut r = Response::new(BoxBody(vec![])); *r.status_mut() = StatusCode::NOT_FOUND; r } } }) }
                Svc::App(n) => n.go(method, inner, headers, body),
            };
            return Box::pin(async move { let mut r = f.await; for m in maps { r = m(r).await; } r });
        }
        match &self.fallback { Some(f) => f(method, uri, headers, body).unwrap_or_else(|| reject(405)), None => reject(404) }
    }
}
pub struct Running(Rc<Node>);
impl world::App for Running {
    fn request(&self, method: &str, url: &str, headers: HeaderMap, body: Vec<u8>) -> world::Resp {
        match world::block_on(self.0.go(method, Uri::parse(url), headers, body)) { // the length of the body is known and announced; hyper cancels a response that also says it comes in chunks
            Some(r) if r.headers().contains_key("transfer-encoding") => world::Resp { status: 0, headers: HeaderMap::new(), body: vec![], file: None },
            Some(r) => world::Resp { status: r.status().0, headers: r.headers().clone(), body: r.into_body().0, file: None }, None => world::Resp { status: 0, headers: HeaderMap::new(), body: vec![], file: None } }
    }
}
pub struct Server;
#[derive(Debug)]
pub struct ServeError;
pub struct Addr(pub String);
impl std::fmt::Display for Addr { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
impl std::str::FromStr for Addr { type Err = (); fn from_str(s: &str) -> Result<Addr, ()> { let Some((h, p)) = s.rsplit_once(':') else { return Err(()) }; if h.is_empty() || p.parse::<u16>().is_err() { return Err(()); } Ok(Addr(s.to_string())) } }
pub struct Bound(String);
impl Server { pub fn bind(a: &Addr) -> Bound { Bound(a.0.clone()) } }
impl Bound { pub fn serve(self, app: Whole) -> Serving { Serving { addr: self.0, app: app.0, started: false } } }
/// The running server.
pub struct Serving { addr: String, app: Rc<Node>, started: bool }
unsafe impl Send for Serving {}
impl Future for Serving {
    type Output = Result<(), ServeError>;
    fn poll(mut self: Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<Self::Output> {
        if self.started { return std::task::Poll::Pending; }
        if world::world(|w| w.hold && w.app.is_some()) { panic!("error binding: address already in use"); }
        world::world(|w| w.bound = Some(self.addr.clone()));
        if world::world(|w| w.hold) { self.started = true; let a = self.app.clone(); world::world(|w| w.app = Some(Rc::new(Running(a)))); return std::task::Poll::Pending; }
        let f = world::world(|w| w.serve.clone()); if let Some(f) = f { f(&Running(self.app.clone())); } std::task::Poll::Ready(Ok(()))
    }
}
impl Drop for Serving { fn drop(&mut self) { if self.started { let a = world::world(|w| { w.bound = None; w.app.take() }); drop(a); } } }
