pub use tokio_real::io::*;

use std::cell::UnsafeCell;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

/// `split` with a lock that knows the model checker (the inner stream may be preempted inside a poll).
struct Inner<T> {
    stream: UnsafeCell<T>,
    locked: AtomicBool,
    waiters: Mutex<Vec<vmc::Tid>>,
}
unsafe impl<T: Send> Send for Inner<T> {}
unsafe impl<T: Send> Sync for Inner<T> {}

impl<T: Unpin> Inner<T> {
    fn with<R>(&self, f: impl FnOnce(Pin<&mut T>) -> R) -> R {
        struct Unlock<'a>(&'a AtomicBool, &'a Mutex<Vec<vmc::Tid>>);
        impl Drop for Unlock<'_> {
            fn drop(&mut self) {
                self.0.store(false, Ordering::SeqCst);
                let w = std::mem::take(&mut *self.1.lock().unwrap());
                for t in w {
                    vmc::unpark_sync(t);
                }
            }
        }
        while self.locked.swap(true, Ordering::SeqCst) {
            self.waiters.lock().unwrap().push(vmc::current().expect("task"));
            vmc::park_sync();
        }
        let _u = Unlock(&self.locked, &self.waiters);
        f(Pin::new(unsafe { &mut *self.stream.get() }))
    }
}

pub struct ReadHalf<T>(Arc<Inner<T>>);
pub struct WriteHalf<T>(Arc<Inner<T>>);

pub fn split<T: AsyncRead + AsyncWrite + Unpin>(stream: T) -> (ReadHalf<T>, WriteHalf<T>) {
    let i = Arc::new(Inner { stream: UnsafeCell::new(stream), locked: AtomicBool::new(false), waiters: Mutex::new(vec![]) });
    (ReadHalf(i.clone()), WriteHalf(i))
}
impl<T> ReadHalf<T> {
    pub fn is_pair_of(&self, other: &WriteHalf<T>) -> bool {
        Arc::ptr_eq(&self.0, &other.0)
    }
    pub fn unsplit(self, other: WriteHalf<T>) -> T
    where
        T: Unpin,
    {
        drop(other);
        Arc::into_inner(self.0).expect("unrelated halves").stream.into_inner()
    }
}
impl<T> WriteHalf<T> {
    pub fn is_pair_of(&self, other: &ReadHalf<T>) -> bool {
        Arc::ptr_eq(&self.0, &other.0)
    }
}
impl<T> std::fmt::Debug for ReadHalf<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "ReadHalf")
    }
}
impl<T> std::fmt::Debug for WriteHalf<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "WriteHalf")
    }
}
impl<T: AsyncRead + Unpin> AsyncRead for ReadHalf<T> {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<std::io::Result<()>> {
        self.0.with(|s| s.poll_read(cx, buf))
    }
}
impl<T: AsyncWrite + Unpin> AsyncWrite for WriteHalf<T> {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<std::io::Result<usize>> {
        self.0.with(|s| s.poll_write(cx, b))
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        self.0.with(|s| s.poll_flush(cx))
    }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        self.0.with(|s| s.poll_shutdown(cx))
    }
}
