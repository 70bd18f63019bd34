//! Stand-in for tokio: one thread, tasks polled in spawn order, virtual time.
use std::future::Future;
pub mod task {
    use super::*;
    use std::cell::RefCell; use std::rc::Rc; use std::pin::Pin; use std::task::{Context, Poll};
    pub struct JoinHandle<T> { slot: Rc<RefCell<world::TaskSlot>>, out: Rc<RefCell<Option<T>>> }
    #[derive(Debug)]
    pub struct JoinError;
    unsafe impl<T> Send for JoinHandle<T> {} unsafe impl<T> Sync for JoinHandle<T> {}
    impl<T> JoinHandle<T> { pub fn abort(&self) { self.slot.borrow_mut().abort = true; world::world(|w| w.aborted += 1); } pub fn is_finished(&self) -> bool { self.slot.borrow().done } }
    impl<T> Future for JoinHandle<T> { type Output = Result<T, JoinError>; fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> { match self.out.borrow_mut().take() { Some(v) => Poll::Ready(Ok(v)), None => if self.slot.borrow().abort { Poll::Ready(Err(JoinError)) } else { Poll::Pending } } } }
    pub fn spawn<T: 'static>(f: impl Future<Output = T> + 'static) -> JoinHandle<T> {
        let out = Rc::new(RefCell::new(None)); let o2 = out.clone();
        let slot = world::spawn(Box::pin(async move { let v = f.await; *o2.borrow_mut() = Some(v); }));
        JoinHandle { slot, out }
    }
    pub fn spawn_local<T: 'static>(f: impl Future<Output = T> + 'static) -> JoinHandle<T> { spawn(f) }
    pub fn spawn_blocking<T: 'static>(f: impl FnOnce() -> T + 'static) -> JoinHandle<T> { spawn(async move { f() }) }
    pub async fn yield_now() { let mut done = false; std::future::poll_fn(move |_| if done { Poll::Ready(()) } else { done = true; Poll::Pending }).await }
    impl std::fmt::Display for JoinError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("task was cancelled") } }
    impl JoinError { pub fn is_cancelled(&self) -> bool { true } pub fn is_panic(&self) -> bool { false } }
}
pub use task::spawn;
pub mod time {
    use super::*;
    use std::pin::Pin; use std::task::{Context, Poll}; use std::time::Duration;
    pub struct Sleep(usize);
    impl Future for Sleep { type Output = (); fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> { if world::world(|w| w.sleeps[self.0].fired) { Poll::Ready(()) } else { Poll::Pending } } }
    impl Drop for Sleep { fn drop(&mut self) { world::world(|w| w.sleeps[self.0].live = false) } }
    pub use std::time::Duration as Span;
    pub mod error { #[derive(Debug)] pub struct Elapsed; impl std::fmt::Display for Elapsed { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("deadline has elapsed") } } }
    pub async fn timeout<T>(d: Duration, f: impl Future<Output = T>) -> Result<T, error::Elapsed> {
        let mut s = sleep(d); let mut f = Box::pin(f);
        std::future::poll_fn(move |cx| match f.as_mut().poll(cx) { Poll::Ready(v) => Poll::Ready(Ok(v)), Poll::Pending => match Pin::new(&mut s).poll(cx) { Poll::Ready(()) => Poll::Ready(Err(error::Elapsed)), Poll::Pending => Poll::Pending } }).await
    }
    pub fn sleep(d: Duration) -> Sleep { world::world(|w| { let until = w.now_ms + d.as_millis() as u64; w.sleeps.push(world::Sleep { until, fired: false, live: true }); Sleep(w.sleeps.len() - 1) }) }
}
pub mod sync {
    use super::*;
    use std::cell::{RefCell, UnsafeCell};
    pub struct OnceCell<T>(UnsafeCell<Option<T>>);
    unsafe impl<T> Sync for OnceCell<T> {}
    impl<T> OnceCell<T> {
        pub const fn const_new() -> Self { OnceCell(UnsafeCell::new(None)) }
        pub const fn new() -> Self { OnceCell(UnsafeCell::new(None)) }
        pub fn get(&self) -> Option<&T> { unsafe { (*self.0.get()).as_ref() } }
        pub async fn get_or_init<F: FnOnce() -> U, U: Future<Output = T>>(&self, f: F) -> &T { if self.get().is_none() { let v = f().await; unsafe { *self.0.get() = Some(v); } } self.get().unwrap() }
    }
    pub struct RwLock<T>(RefCell<T>);
    unsafe impl<T> Sync for RwLock<T> {} unsafe impl<T> Send for RwLock<T> {}
    impl<T> RwLock<T> {
        pub fn new(v: T) -> Self { RwLock(RefCell::new(v)) }
        pub async fn read(&self) -> std::cell::Ref<'_, T> { self.0.borrow() }
        pub async fn write(&self) -> std::cell::RefMut<'_, T> { self.0.borrow_mut() }
    }
    pub struct Mutex<T>(RefCell<T>);
    unsafe impl<T> Sync for Mutex<T> {}
    impl<T> Mutex<T> { pub fn new(v: T) -> Self { Mutex(RefCell::new(v)) } pub async fn lock(&self) -> std::cell::RefMut<'_, T> { self.0.borrow_mut() } }
    /// The last value sent.
    pub mod watch {
        use super::*;
        use std::rc::Rc; use std::cell::Cell; use std::pin::Pin; use std::task::{Context, Poll};
        struct Chan<T> { v: RefCell<T>, version: Cell<u64>, receivers: Cell<usize>, senders: Cell<usize> }
        pub struct Sender<T>(Rc<Chan<T>>);
        pub struct Receiver<T>(Rc<Chan<T>>, u64);
        unsafe impl<T> Send for Sender<T> {} unsafe impl<T> Sync for Sender<T> {} unsafe impl<T> Send for Receiver<T> {} unsafe impl<T> Sync for Receiver<T> {}
        pub mod error {
            pub struct SendError<T>(pub T);
            impl<T> std::fmt::Debug for SendError<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("SendError") } }
            impl<T> std::fmt::Display for SendError<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("channel closed") } }
            #[derive(Debug)] pub struct RecvError;
        }
        pub fn channel<T>(v: T) -> (Sender<T>, Receiver<T>) { let c = Rc::new(Chan { v: RefCell::new(v), version: Cell::new(0), receivers: Cell::new(1), senders: Cell::new(1) }); (Sender(c.clone()), Receiver(c, 0)) }
        impl<T> Drop for Sender<T> { fn drop(&mut self) { self.0.senders.set(self.0.senders.get() - 1) } }
        impl<T> Drop for Receiver<T> { fn drop(&mut self) { self.0.receivers.set(self.0.receivers.get() - 1) } }
        impl<T> Clone for Receiver<T> { fn clone(&self) -> Self { self.0.receivers.set(self.0.receivers.get() + 1); Receiver(self.0.clone(), self.1) } }
        impl<T> Sender<T> {
            pub fn send(&self, v: T) -> Result<(), error::SendError<T>> { if self.0.receivers.get() == 0 { return Err(error::SendError(v)); } self.send_replace(v); Ok(()) }
            pub fn send_replace(&self, v: T) -> T { let o = self.0.v.replace(v); self.0.version.set(self.0.version.get() + 1); o }
            pub fn borrow(&self) -> std::cell::Ref<'_, T> { self.0.v.borrow() }
            pub fn subscribe(&self) -> Receiver<T> { self.0.receivers.set(self.0.receivers.get() + 1); Receiver(self.0.clone(), self.0.version.get()) }
            pub fn is_closed(&self) -> bool { self.0.receivers.get() == 0 }
        }
        impl<T> Receiver<T> {
            pub fn borrow(&self) -> std::cell::Ref<'_, T> { self.0.v.borrow() }
            pub fn borrow_and_update(&mut self) -> std::cell::Ref<'_, T> { self.1 = self.0.version.get(); self.0.v.borrow() }
            pub fn changed(&mut self) -> Changed<'_, T> { Changed(self) }
            pub fn has_changed(&self) -> Result<bool, error::RecvError> { Ok(self.1 != self.0.version.get()) }
        }
        pub struct Changed<'a, T>(&'a mut Receiver<T>);
        impl<'a, T> Future for Changed<'a, T> { type Output = Result<(), error::RecvError>; fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> { let v = self.0 .0.version.get(); if v != self.0 .1 { self.0 .1 = v; Poll::Ready(Ok(())) } else if self.0 .0.senders.get() == 0 { Poll::Ready(Err(error::RecvError)) } else { Poll::Pending } } }
    }
    /// One permit.
    #[derive(Default)]
    pub struct Notify(std::cell::Cell<bool>);
    unsafe impl Sync for Notify {}
    impl Notify {
        pub fn new() -> Self { Notify::default() }
        pub fn notify_one(&self) { self.0.set(true) }
        pub async fn notified(&self) { std::future::poll_fn(|_| if self.0.replace(false) { std::task::Poll::Ready(()) } else { std::task::Poll::Pending }).await }
    }
    pub mod mpsc {
        use super::*;
        use std::collections::VecDeque; use std::rc::Rc; use std::cell::Cell; use std::pin::Pin; use std::task::{Context, Poll};
        struct Chan<T> { q: RefCell<VecDeque<T>>, senders: Cell<usize>, closed: Cell<bool> }
        pub struct UnboundedSender<T>(Rc<Chan<T>>);
        unsafe impl<T> Send for UnboundedSender<T> {}
        unsafe impl<T> Sync for UnboundedSender<T> {}
        pub struct UnboundedReceiver<T>(Rc<Chan<T>>);
        impl<T> Clone for UnboundedSender<T> { fn clone(&self) -> Self { self.0.senders.set(self.0.senders.get() + 1); UnboundedSender(self.0.clone()) } }
        impl<T> Drop for UnboundedSender<T> { fn drop(&mut self) { self.0.senders.set(self.0.senders.get() - 1) } }
        impl<T> Drop for UnboundedReceiver<T> { fn drop(&mut self) { self.0.closed.set(true); } }
        pub mod error {
            #[derive(Debug, PartialEq, Eq, Clone, Copy)]
            pub enum TryRecvError { Empty, Disconnected }
            pub struct SendError<T>(pub T);
            impl<T> std::fmt::Debug for SendError<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("SendError") } }
        }
        impl<T> UnboundedSender<T> { pub fn send(&self, v: T) -> Result<(), error::SendError<T>> { if self.0.closed.get() { return Err(error::SendError(v)); } self.0.q.borrow_mut().push_back(v); Ok(()) } pub fn is_closed(&self) -> bool { self.0.closed.get() } }
        impl<T> UnboundedReceiver<T> {
            pub fn close(&mut self) { self.0.closed.set(true); }
            pub fn is_closed(&self) -> bool { self.0.closed.get() || self.0.senders.get() == 0 }
            pub fn is_empty(&self) -> bool { self.0.q.borrow().is_empty() }
            pub fn len(&self) -> usize { self.0.q.borrow().len() }
            pub fn try_recv(&mut self) -> Result<T, error::TryRecvError> { match self.0.q.borrow_mut().pop_front() { Some(v) => Ok(v), None => Err(if self.0.senders.get() == 0 { error::TryRecvError::Disconnected } else { error::TryRecvError::Empty }) } }
            pub fn recv(&mut self) -> Recv<'_, T> { Recv(self) }
        }
        pub struct Recv<'a, T>(&'a mut UnboundedReceiver<T>);
        impl<'a, T> Future for Recv<'a, T> { type Output = Option<T>; fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<T>> { let c = &self.0 .0; match c.q.borrow_mut().pop_front() { Some(v) => Poll::Ready(Some(v)), None => if c.senders.get() == 0 { Poll::Ready(None) } else { Poll::Pending } } } }
        pub fn unbounded_channel<T>() -> (UnboundedSender<T>, UnboundedReceiver<T>) { let c = Rc::new(Chan { q: RefCell::new(VecDeque::new()), senders: Cell::new(1), closed: Cell::new(false) }); (UnboundedSender(c.clone()), UnboundedReceiver(c)) }
    }
}

pub mod net {
    pub struct TcpStream(bool);
    #[derive(Debug)] pub struct NetError;
    impl std::fmt::Display for NetError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("connection refused") } }
    impl TcpStream {
        pub async fn connect(a: (&str, u16)) -> Result<TcpStream, NetError> { let p = format!(":{}", a.1); if world::world(|w| w.bound.as_ref().map_or(false, |b| b.ends_with(&p))) { Ok(TcpStream(false)) } else { Err(NetError) } }
        pub(crate) fn put(&mut self, b: &[u8]) { if b.ends_with(b"\r\n\r\n") { self.0 = true; } }
        pub(crate) fn got(&mut self, b: &mut [u8]) -> usize { let t = b"HTTP/1.0 200 OK\r\n"; let n = if self.0 { t.len().min(b.len()) } else { 0 }; b[..n].copy_from_slice(&t[..n]); n }
    }
}
pub mod io {
    use super::*;
    pub trait AsyncReadExt { fn read<'a>(&'a mut self, b: &'a mut [u8]) -> impl Future<Output = Result<usize, crate::net::NetError>> + Send + 'a; }
    pub trait AsyncWriteExt { fn write_all<'a>(&'a mut self, b: &'a [u8]) -> impl Future<Output = Result<(), crate::net::NetError>> + Send + 'a; }
    impl AsyncReadExt for crate::net::TcpStream { fn read<'a>(&'a mut self, b: &'a mut [u8]) -> impl Future<Output = Result<usize, crate::net::NetError>> + Send + 'a { async move { Ok(self.got(b)) } } }
    impl AsyncWriteExt for crate::net::TcpStream { fn write_all<'a>(&'a mut self, b: &'a [u8]) -> impl Future<Output = Result<(), crate::net::NetError>> + Send + 'a { async move { self.put(b); Ok(()) } } }
}
