//! Stand-in for tokio-retry.
use std::{future::Future, time::Duration};
pub mod strategy {
    use std::time::Duration;
    #[derive(Clone)] pub struct FibonacciBackoff { a: u64, b: u64, max: Option<u64> }
    impl FibonacciBackoff { pub fn from_millis(m: u64) -> Self { FibonacciBackoff { a: m, b: m, max: None } } pub fn max_delay(mut self, d: Duration) -> Self { self.max = Some(d.as_millis() as u64); self } }
    impl Iterator for FibonacciBackoff { type Item = Duration; fn next(&mut self) -> Option<Duration> { let d = self.a; let n = self.a.saturating_add(self.b); self.a = self.b; self.b = n; Some(Duration::from_millis(self.max.map_or(d, |m| d.min(m)))) } }
}
pub struct Retry;
impl Retry { pub async fn spawn<I: Iterator<Item = Duration>, T, E, F: Future<Output = Result<T, E>>>(mut i: I, mut f: impl FnMut() -> F) -> Result<T, E> { loop { match f().await { Ok(v) => return Ok(v), Err(e) => match i.next() { Some(d) => tokio::time::sleep(d).await, None => return Err(e) } } } } }
