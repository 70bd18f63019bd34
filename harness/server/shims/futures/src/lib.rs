//! Stand-in for futures: streams.
pub mod stream {
    use std::{pin::Pin, task::{Context, Poll}};
    pub trait Stream { type Item; fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>>; }
    pub struct Map<S, F>(S, F);
    impl<S: Stream + Unpin, T, F: FnMut(S::Item) -> T + Unpin> Stream for Map<S, F> { type Item = T; fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> { match Pin::new(&mut self.0).poll_next(cx) { Poll::Ready(Some(v)) => Poll::Ready(Some((self.1)(v))), Poll::Ready(None) => Poll::Ready(None), Poll::Pending => Poll::Pending } } }
    pub trait StreamExt: Stream + Sized { fn map<T, F: FnMut(Self::Item) -> T>(self, f: F) -> Map<Self, F> { Map(self, f) } }
    impl<S: Stream> StreamExt for S {}
}
pub use stream::{Stream, StreamExt};
