//! `spawn_fifo_async` on a rayon pool.
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};

pub struct AsyncRayonHandle<T>(tokio::sync::oneshot::Receiver<std::thread::Result<T>>);
impl<T> Future for AsyncRayonHandle<T> {
    type Output = T;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
        match Pin::new(&mut self.0).poll(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(Ok(Ok(v))) => Poll::Ready(v),
            Poll::Ready(Ok(Err(p))) => std::panic::resume_unwind(p),
            Poll::Ready(Err(_)) => panic!("the task was dropped"),
        }
    }
}
pub trait AsyncThreadPool {
    fn spawn_async<F: FnOnce() -> R + Send + 'static, R: Send + 'static>(&self, f: F) -> AsyncRayonHandle<R>;
    fn spawn_fifo_async<F: FnOnce() -> R + Send + 'static, R: Send + 'static>(&self, f: F) -> AsyncRayonHandle<R>;
}
impl AsyncThreadPool for rayon::ThreadPool {
    fn spawn_async<F: FnOnce() -> R + Send + 'static, R: Send + 'static>(&self, f: F) -> AsyncRayonHandle<R> {
        let (tx, rx) = tokio::sync::oneshot::channel();
        self.spawn(move || {
            let _ = tx.send(std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)));
        });
        AsyncRayonHandle(rx)
    }
    fn spawn_fifo_async<F: FnOnce() -> R + Send + 'static, R: Send + 'static>(&self, f: F) -> AsyncRayonHandle<R> {
        let (tx, rx) = tokio::sync::oneshot::channel();
        self.spawn_fifo(move || {
            let _ = tx.send(std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)));
        });
        AsyncRayonHandle(rx)
    }
}
