pub use tokio_real::task::*;

use std::any::Any;
use std::fmt;
use std::future::Future;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

pub struct JoinError {
    panic: Option<Box<dyn Any + Send + 'static>>,
}
impl JoinError {
    pub fn is_cancelled(&self) -> bool {
        self.panic.is_none()
    }
    pub fn is_panic(&self) -> bool {
        self.panic.is_some()
    }
    pub fn into_panic(self) -> Box<dyn Any + Send + 'static> {
        self.panic.expect("not a panic")
    }
    pub fn try_into_panic(self) -> Result<Box<dyn Any + Send + 'static>, Self> {
        match self.panic {
            Some(p) => Ok(p),
            None => Err(self),
        }
    }
}
// The payload is only handed out by value
unsafe impl Sync for JoinError {}
impl fmt::Display for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", if self.is_panic() { "task panicked" } else { "task was cancelled" })
    }
}
impl fmt::Debug for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", if self.is_panic() { "JoinError::Panic" } else { "JoinError::Cancelled" })
    }
}
impl std::error::Error for JoinError {}

struct State<T> {
    result: Option<Result<T, JoinError>>,
    done: bool,
    waker: Option<Waker>,
}
type Shared<T> = Arc<Mutex<State<T>>>;

fn finish<T>(s: &Shared<T>, r: Result<T, JoinError>) {
    let w = {
        let mut s = s.lock().unwrap();
        if s.done {
            return;
        }
        s.done = true;
        s.result = Some(r);
        s.waker.take()
    };
    if let Some(w) = w {
        w.wake();
    }
}

struct Wrapper<F: Future> {
    fut: Option<Pin<Box<F>>>,
    shared: Shared<F::Output>,
}
impl<F: Future> Future for Wrapper<F> {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        // no structural pinning: the inner future is boxed
        let this = unsafe { self.get_unchecked_mut() };
        let fut = this.fut.as_mut().expect("polled after completion");
        match catch_unwind(AssertUnwindSafe(|| fut.as_mut().poll(cx))) {
            Ok(Poll::Pending) => Poll::Pending,
            Ok(Poll::Ready(v)) => {
                this.fut = None;
                finish(&this.shared, Ok(v));
                Poll::Ready(())
            }
            Err(p) => {
                if let Some(tid) = vmc::current() {
                    vmc::record_panic(&p, tid);
                }
                let f = this.fut.take();
                let _ = catch_unwind(AssertUnwindSafe(move || drop(f)));
                finish(&this.shared, Err(JoinError { panic: Some(p) }));
                Poll::Ready(())
            }
        }
    }
}
impl<F: Future> Drop for Wrapper<F> {
    fn drop(&mut self) {
        self.fut = None;
        finish(&self.shared, Err(JoinError { panic: None }));
    }
}

pub struct JoinHandle<T> {
    tid: vmc::Tid,
    shared: Shared<T>,
}
unsafe impl<T: Send> Send for JoinHandle<T> {}
unsafe impl<T: Send> Sync for JoinHandle<T> {}
impl<T> Unpin for JoinHandle<T> {}

impl<T> JoinHandle<T> {
    pub fn abort(&self) {
        vmc::preempt("abort");
        vmc::abort(self.tid);
    }
    pub fn is_finished(&self) -> bool {
        self.shared.lock().unwrap().done
    }
    pub fn abort_handle(&self) -> AbortHandle {
        AbortHandle { tid: self.tid }
    }
    pub fn id(&self) -> Id {
        Id(self.tid)
    }
}
impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut s = self.shared.lock().unwrap();
        if let Some(r) = s.result.take() {
            return Poll::Ready(r);
        }
        if s.done {
            panic!("JoinHandle polled after completion");
        }
        s.waker = Some(cx.waker().clone());
        Poll::Pending
    }
}
impl<T> fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "JoinHandle({})", self.tid)
    }
}

#[derive(Clone, Debug)]
pub struct AbortHandle {
    tid: vmc::Tid,
}
impl AbortHandle {
    pub fn abort(&self) {
        vmc::preempt("abort");
        vmc::abort(self.tid);
    }
    pub fn is_finished(&self) -> bool {
        vmc::is_done(self.tid)
    }
    pub fn id(&self) -> Id {
        Id(self.tid)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Id(vmc::Tid);
impl fmt::Display for Id {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
pub fn id() -> Id {
    try_id().expect("not in a task")
}
pub fn try_id() -> Option<Id> {
    vmc::current().map(Id)
}

fn short(name: &str) -> String {
    // drop generics, keep the last segments
    let mut depth = 0;
    let mut s = String::new();
    for c in name.chars() {
        match c {
            '<' => depth += 1,
            '>' => depth -= 1,
            _ if depth == 0 => s.push(c),
            _ => {}
        }
    }
    let parts: Vec<&str> = s.split("::").filter(|p| !p.is_empty() && *p != "{{closure}}").collect();
    let k = parts.len().saturating_sub(3);
    parts[k..].join("::")
}

fn spawn_named<F>(fut: F, name: String) -> JoinHandle<F::Output>
where
    F: Future + 'static,
{
    let shared: Shared<F::Output> = Arc::new(Mutex::new(State { result: None, done: false, waker: None }));
    let w = Wrapper { fut: Some(Box::pin(fut)), shared: shared.clone() };
    let tid = vmc::spawn(name, Box::pin(w));
    vmc::preempt("after spawn");
    JoinHandle { tid, shared }
}

#[track_caller]
pub fn spawn<F>(fut: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    spawn_named(fut, short(std::any::type_name::<F>()))
}

pub fn spawn_local<F>(fut: F) -> JoinHandle<F::Output>
where
    F: Future + 'static,
    F::Output: 'static,
{
    spawn_named(fut, short(std::any::type_name::<F>()))
}

pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
where
    F: FnOnce() -> R + Send + 'static,
    R: Send + 'static,
{
    if vmc::in_teardown() {
        // nothing runs any more
        let shared = Arc::new(Mutex::new(State {
            result: Some(Err(JoinError { panic: None })),
            done: true,
            waker: None,
        }));
        return JoinHandle { tid: usize::MAX, shared };
    }
    spawn_named(async move { f() }, "spawn_blocking".into())
}

pub fn block_in_place<F, R>(f: F) -> R
where
    F: FnOnce() -> R,
{
    f()
}

pub async fn yield_now() {
    struct Y(bool);
    impl Future for Y {
        type Output = ();
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
            if self.0 {
                Poll::Ready(())
            } else {
                self.0 = true;
                cx.waker().wake_by_ref();
                Poll::Pending
            }
        }
    }
    Y(false).await
}

/// A set of tasks (the part of tokio's interface that is commonly used)
pub struct JoinSet<T> {
    handles: Vec<JoinHandle<T>>,
}
impl<T: 'static> Default for JoinSet<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T: 'static> JoinSet<T> {
    pub fn new() -> Self {
        Self { handles: vec![] }
    }
    pub fn len(&self) -> usize {
        self.handles.len()
    }
    pub fn is_empty(&self) -> bool {
        self.handles.is_empty()
    }
    pub fn spawn<F>(&mut self, fut: F) -> AbortHandle
    where
        F: Future<Output = T> + Send + 'static,
        T: Send,
    {
        let h = spawn(fut);
        let a = h.abort_handle();
        self.handles.push(h);
        a
    }
    pub fn poll_join_next(&mut self, cx: &mut Context<'_>) -> Poll<Option<Result<T, JoinError>>> {
        if self.handles.is_empty() {
            return Poll::Ready(None);
        }
        for i in 0..self.handles.len() {
            if let Poll::Ready(r) = Pin::new(&mut self.handles[i]).poll(cx) {
                self.handles.remove(i);
                return Poll::Ready(Some(r));
            }
        }
        Poll::Pending
    }
    pub fn try_join_next(&mut self) -> Option<Result<T, JoinError>> {
        let mut cx = Context::from_waker(Waker::noop());
        match self.poll_join_next(&mut cx) {
            Poll::Ready(r) => r,
            Poll::Pending => None,
        }
    }
    pub async fn join_next(&mut self) -> Option<Result<T, JoinError>> {
        std::future::poll_fn(|cx| self.poll_join_next(cx)).await
    }
    pub fn abort_all(&mut self) {
        for h in &self.handles {
            h.abort();
        }
    }
    pub fn detach_all(&mut self) {
        self.handles.clear();
    }
    pub async fn shutdown(&mut self) {
        self.abort_all();
        while self.join_next().await.is_some() {}
    }
    pub async fn join_all(mut self) -> Vec<T> {
        let mut v = vec![];
        while let Some(r) = self.join_next().await {
            match r {
                Ok(t) => v.push(t),
                Err(e) if e.is_panic() => resume_unwind(e.into_panic()),
                Err(e) => panic!("{e}"),
            }
        }
        v
    }
}
impl<T> Drop for JoinSet<T> {
    fn drop(&mut self) {
        for h in &self.handles {
            h.abort();
        }
    }
}
