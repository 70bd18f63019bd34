//! Stand-in for poem: routes to server-sent events.
use std::{any::Any, cell::RefCell, future::Future, pin::Pin, rc::Rc, sync::{atomic::{AtomicBool, Ordering}, Arc}, task::{Context, Poll, Wake, Waker}};
pub use poem_derive::handler;
pub mod http { #[derive(Clone, Debug, PartialEq)] pub struct Method(pub &'static str); impl Method { pub const GET: Method = Method("GET"); pub const POST: Method = Method("POST"); pub const HEAD: Method = Method("HEAD"); pub const OPTIONS: Method = Method("OPTIONS"); } }
pub mod middleware { #[derive(Default)] pub struct Cors; impl Cors { pub fn new() -> Cors { Cors } pub fn allow_methods(self, _: impl IntoIterator<Item = super::http::Method>) -> Cors { self } pub fn allow_method(self, _: super::http::Method) -> Cors { self } pub fn allow_origin(self, _: &str) -> Cors { self } pub fn max_age(self, _: i32) -> Cors { self } } }
pub mod listener { pub struct TcpListener(pub String); impl TcpListener { pub fn bind(a: impl std::fmt::Display) -> TcpListener { TcpListener(a.to_string()) } } }
pub mod web {
    pub struct Data<T>(pub T);
    pub mod sse {
        use futures::Stream; use std::pin::Pin;
        #[derive(Clone, Debug, PartialEq)] pub struct Event(pub String);
        impl Event { pub fn message(s: impl Into<String>) -> Event { Event(s.into()) } }
        pub struct SSE(pub Pin<Box<dyn Stream<Item = Event>>>);
        impl SSE { pub fn new(s: impl Stream<Item = Event> + Send + 'static) -> SSE { SSE(Box::pin(s)) } pub fn keep_alive(self, _: std::time::Duration) -> SSE { self } }
    }
}
use web::{sse::{Event, SSE}, Data};
type Handler = Rc<dyn Fn(&dyn Any) -> SSE>;
pub struct Get(Handler);
pub fn get<T: 'static>(f: for<'a> fn(Data<&'a T>) -> SSE) -> Get { Get(Rc::new(move |d: &dyn Any| match d.downcast_ref::<T>() { Some(d) => f(Data(d)), None => panic!("no such data") })) }
#[derive(Default)]
pub struct Route { at: Vec<(String, Handler)>, data: Option<Rc<dyn Any>> }
unsafe impl Send for Route {}
impl Route { pub fn new() -> Route { Route::default() } pub fn at(mut self, p: impl AsRef<str>, h: Get) -> Route { self.at.push((p.as_ref().to_string(), h.0)); self } }
pub trait EndpointExt: Sized { fn with(self, m: middleware::Cors) -> Self; fn data<T: 'static>(self, d: T) -> Self; }
impl EndpointExt for Route { fn with(self, _: middleware::Cors) -> Route { self } fn data<T: 'static>(mut self, d: T) -> Route { self.data = Some(Rc::new(d)); self } }
pub struct Server(String);
impl Server { pub fn new(l: listener::TcpListener) -> Server { Server(l.0) } pub fn run(self, app: Route) -> Running { Running { addr: self.0, app: Rc::new(app), on: false } } }
pub struct Running { addr: String, app: Rc<Route>, on: bool }
unsafe impl Send for Running {}
thread_local! { static ON: RefCell<Vec<(String, Rc<Route>)>> = const { RefCell::new(Vec::new()) }; }
impl Future for Running { type Output = std::io::Result<()>; fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> { if !self.on { self.on = true; let r = (self.addr.clone(), self.app.clone()); ON.with(|o| o.borrow_mut().push(r)); } Poll::Pending } }
impl Drop for Running { fn drop(&mut self) { if self.on { ON.with(|o| o.borrow_mut().retain(|r| r.0 != self.addr)) } } }
struct Flag(AtomicBool);
impl Wake for Flag { fn wake(self: Arc<Self>) { self.0.store(true, Ordering::Relaxed) } }
/// A browser that listens to events; polled only after it was woken.
pub struct Client { s: SSE, woken: Arc<Flag>, pub got: Vec<String> }
pub fn connect(addr: &str, path: &str) -> Option<Client> {
    let app = ON.with(|o| o.borrow().iter().find(|r| r.0 == addr).map(|r| r.1.clone()))?; let h = app.at.iter().find(|a| a.0 == path)?; let d = app.data.clone()?;
    Some(Client { s: (h.1)(&*d), woken: Arc::new(Flag(AtomicBool::new(true))), got: Vec::new() })
}
impl Client {
    pub fn run(&mut self) { while self.woken.0.swap(false, Ordering::Relaxed) { let w = Waker::from(self.woken.clone()); let mut cx = Context::from_waker(&w); while let Poll::Ready(e) = self.s.0.as_mut().poll_next(&mut cx) { match e { Some(Event(s)) => self.got.push(s), None => { self.got.push("end".into()); return } } } } }
}
