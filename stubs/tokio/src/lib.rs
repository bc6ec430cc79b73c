//! tokio without a runtime: blocking work runs at once, locks and channels are tokio's own, files are in memory.
pub use real_tokio::sync;
pub use task::spawn;
pub mod task {
    use std::future::Future;
    use std::pin::Pin;
    use std::task::{Context, Poll};
    #[derive(Debug)]
    pub struct JoinError;
    impl std::fmt::Display for JoinError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("task failed") } }
    impl std::error::Error for JoinError {}
    impl From<JoinError> for std::io::Error { fn from(_: JoinError) -> Self { std::io::ErrorKind::Other.into() } }
    pub struct JoinHandle<T>(pub(crate) Option<T>);
    impl<T> Unpin for JoinHandle<T> {}
    impl<T> JoinHandle<T> { pub fn abort(&self) {} pub fn is_finished(&self) -> bool { true } }
    impl<T> Future for JoinHandle<T> {
        type Output = Result<T, JoinError>;
        fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> { Poll::Ready(self.0.take().ok_or(JoinError)) }
    }
    pub fn spawn_blocking<F: FnOnce() -> R, R>(f: F) -> JoinHandle<R> { JoinHandle(Some(f())) }
    pub fn block_in_place<F: FnOnce() -> R, R>(f: F) -> R { f() }
    /// a task runs as soon as it is started; one that waits for a timer never goes on
    pub fn spawn<F: Future>(f: F) -> JoinHandle<F::Output> { JoinHandle(crate::once(f)) }
}
pub mod runtime {
    #[derive(Debug, Clone)]
    pub struct Handle;
    impl Handle { pub fn current() -> Handle { Handle } pub fn block_on<F: std::future::Future>(&self, f: F) -> F::Output { crate::now(f) } }
    #[derive(Debug)]
    pub struct Runtime;
    impl Runtime {
        pub fn block_on<F: std::future::Future>(&self, f: F) -> F::Output { crate::now(f) }
        pub fn spawn<F: std::future::Future>(&self, f: F) -> crate::task::JoinHandle<F::Output> { crate::task::spawn(f) }
    }
}
pub mod time {
    pub use std::time::Duration;
    pub use std::time::Instant;
    pub struct Interval;
    impl Interval { pub async fn tick(&mut self) { std::future::pending::<()>().await } }
    pub fn interval(_: Duration) -> Interval { Interval }
    pub fn interval_at(_: Instant, _: Duration) -> Interval { Interval }
    pub async fn sleep(_: Duration) {}
}
pub mod fs {
    use std::io::Result;
    use std::path::Path;
    pub async fn metadata(p: impl AsRef<Path>) -> Result<sxfs::Metadata> { sxfs::metadata(p) }
    pub async fn rename(a: impl AsRef<Path>, b: impl AsRef<Path>) -> Result<()> { sxfs::rename(a, b) }
    pub async fn create_dir_all(a: impl AsRef<Path>) -> Result<()> { sxfs::create_dir_all(a) }
    pub async fn remove_file(a: impl AsRef<Path>) -> Result<()> { sxfs::remove_file(a) }
    pub async fn remove_dir_all(a: impl AsRef<Path>) -> Result<()> { sxfs::remove_dir_all(a) }
}
/// runs a future that never waits
pub fn now<F: std::future::Future>(f: F) -> F::Output {
    match once(f) { Some(v) => v, None => panic!("a future waits for something that cannot happen") }
}
fn once<F: std::future::Future>(f: F) -> Option<F::Output> {
    use std::task::*;
    const T: RawWakerVTable = RawWakerVTable::new(|_| RawWaker::new(std::ptr::null(), &T), |_| {}, |_| {}, |_| {});
    let w = unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &T)) };
    let mut f = std::pin::pin!(f);
    match f.as_mut().poll(&mut Context::from_waker(&w)) { Poll::Ready(v) => Some(v), Poll::Pending => None }
}
