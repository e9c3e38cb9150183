pub use tokio_real::task::*;

use simrt::TaskId;
use std::any::Any;
use std::cell::RefCell;
use std::future::Future;
use std::panic::AssertUnwindSafe;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

pub struct JoinError {
    cancelled: bool,
    payload: Option<Box<dyn Any + Send>>,
}
impl JoinError {
    pub fn is_cancelled(&self) -> bool {
        self.cancelled
    }
    pub fn is_panic(&self) -> bool {
        !self.cancelled
    }
    pub fn into_panic(self) -> Box<dyn Any + Send> {
        self.payload.unwrap_or_else(|| Box::new("panic"))
    }
    pub fn try_into_panic(self) -> Result<Box<dyn Any + Send>, JoinError> {
        if self.cancelled {
            Err(self)
        } else {
            Ok(self.into_panic())
        }
    }
}
unsafe impl Sync for JoinError {}
impl std::fmt::Debug for JoinError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "JoinError({})", if self.cancelled { "cancelled" } else { "panic" })
    }
}
impl std::fmt::Display for JoinError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "task {}", if self.cancelled { "was cancelled" } else { "panicked" })
    }
}
impl std::error::Error for JoinError {}
impl From<JoinError> for std::io::Error {
    fn from(e: JoinError) -> Self {
        std::io::Error::new(std::io::ErrorKind::Other, e.to_string())
    }
}

struct Slot<T> {
    value: Option<Result<T, JoinError>>,
    done: bool,
    waker: Option<Waker>,
}

/// All tasks live on one OS thread; the handle claims Send + Sync so that library code which stores
/// it in shared structures still compiles.
pub struct JoinHandle<T> {
    slot: Rc<RefCell<Slot<T>>>,
    id: TaskId,
}
unsafe impl<T> Send for JoinHandle<T> {}
unsafe impl<T> Sync for JoinHandle<T> {}
impl<T> Unpin for JoinHandle<T> {}

impl<T> JoinHandle<T> {
    pub fn abort(&self) {
        do_abort(self.id, &self.slot);
    }
    pub fn is_finished(&self) -> bool {
        self.slot.borrow().done || simrt::task_done(self.id)
    }
    pub fn abort_handle(&self) -> AbortHandle
    where
        T: 'static,
    {
        let id = self.id;
        let slot = self.slot.clone();
        AbortHandle { id, f: Rc::new(move || do_abort(id, &slot)) }
    }
}
fn do_abort<T>(id: TaskId, slot: &Rc<RefCell<Slot<T>>>) {
    simrt::sync_point("abort");
    if slot.borrow().done {
        return;
    }
    simrt::abort(id);
    let mut s = slot.borrow_mut();
    s.done = true;
    s.value = Some(Err(JoinError { cancelled: true, payload: None }));
    let w = s.waker.take();
    drop(s);
    if let Some(w) = w {
        w.wake();
    }
}
#[derive(Clone)]
pub struct AbortHandle {
    id: TaskId,
    f: Rc<dyn Fn()>,
}
unsafe impl Send for AbortHandle {}
unsafe impl Sync for AbortHandle {}
impl AbortHandle {
    pub fn abort(&self) {
        (self.f)()
    }
    pub fn is_finished(&self) -> bool {
        simrt::task_done(self.id)
    }
}
impl<T> std::fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "JoinHandle({:?})", self.id)
    }
}
impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut s = self.slot.borrow_mut();
        if let Some(v) = s.value.take() {
            return Poll::Ready(v);
        }
        s.waker = Some(cx.waker().clone());
        Poll::Pending
    }
}

struct Wrap<F: Future> {
    fut: Option<Pin<Box<F>>>,
    slot: Rc<RefCell<Slot<F::Output>>>,
    name: &'static str,
    line: u32,
}
impl<F: Future> Unpin for Wrap<F> {}
impl<F: Future> Wrap<F> {
    fn finish(&mut self, v: Result<F::Output, JoinError>) {
        if let Some(f) = self.fut.take() {
            let r = std::panic::catch_unwind(AssertUnwindSafe(move || drop(f)));
            if r.is_err() {
                simrt::record_caught_panic(self.name, self.line);
            }
        }
        let mut s = self.slot.borrow_mut();
        s.done = true;
        s.value = Some(v);
        let w = s.waker.take();
        drop(s);
        if let Some(w) = w {
            w.wake();
        }
    }
}
impl<F: Future> Future for Wrap<F> {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let mut fut = match self.fut.take() {
            Some(f) => f,
            None => return Poll::Ready(()),
        };
        match std::panic::catch_unwind(AssertUnwindSafe(|| fut.as_mut().poll(cx))) {
            Ok(Poll::Pending) => {
                self.fut = Some(fut);
                Poll::Pending
            }
            Ok(Poll::Ready(v)) => {
                self.fut = Some(fut);
                self.finish(Ok(v));
                Poll::Ready(())
            }
            Err(p) => {
                simrt::record_caught_panic(self.name, self.line);
                self.fut = Some(fut);
                self.finish(Err(JoinError { cancelled: false, payload: Some(p) }));
                Poll::Ready(())
            }
        }
    }
}

#[track_caller]
pub fn spawn<F>(fut: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    let l = std::panic::Location::caller();
    spawn_at(fut, l.file(), l.line())
}
#[track_caller]
pub fn spawn_local<F>(fut: F) -> JoinHandle<F::Output>
where
    F: Future + 'static,
    F::Output: 'static,
{
    let l = std::panic::Location::caller();
    spawn_at(fut, l.file(), l.line())
}
fn spawn_at<F>(fut: F, file: &'static str, line: u32) -> JoinHandle<F::Output>
where
    F: Future + 'static,
    F::Output: 'static,
{
    let slot = Rc::new(RefCell::new(Slot { value: None, done: false, waker: None }));
    let id = simrt::spawn_lib(Wrap { fut: Some(Box::pin(fut)), slot: slot.clone(), name: file, line }, file, line);
    JoinHandle { slot, id }
}
#[track_caller]
pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
where
    F: FnOnce() -> R + Send + 'static,
    R: Send + 'static,
{
    let l = std::panic::Location::caller();
    spawn_at(async move { f() }, l.file(), l.line())
}
pub fn block_in_place<F, R>(f: F) -> R
where
    F: FnOnce() -> R,
{
    f()
}

pub async fn yield_now() {
    let mut first = true;
    std::future::poll_fn(move |cx| {
        if first {
            first = false;
            cx.waker().wake_by_ref();
            Poll::Pending
        } else {
            Poll::Ready(())
        }
    })
    .await
}

/// A minimal JoinSet.
pub struct JoinSet<T> {
    set: Vec<JoinHandle<T>>,
}
impl<T: Send + 'static> Default for JoinSet<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T: Send + 'static> JoinSet<T> {
    pub fn new() -> Self {
        JoinSet { set: vec![] }
    }
    pub fn len(&self) -> usize {
        self.set.len()
    }
    pub fn is_empty(&self) -> bool {
        self.set.is_empty()
    }
    #[track_caller]
    pub fn spawn<F>(&mut self, fut: F) -> AbortHandle
    where
        F: Future<Output = T> + Send + 'static,
    {
        let h = spawn(fut);
        let a = h.abort_handle();
        self.set.push(h);
        a
    }
    pub async fn join_next(&mut self) -> Option<Result<T, JoinError>> {
        std::future::poll_fn(|cx| {
            if self.set.is_empty() {
                return Poll::Ready(None);
            }
            for i in 0..self.set.len() {
                if let Poll::Ready(v) = Pin::new(&mut self.set[i]).poll(cx) {
                    self.set.remove(i);
                    return Poll::Ready(Some(v));
                }
            }
            Poll::Pending
        })
        .await
    }
    pub fn abort_all(&mut self) {
        for h in &self.set {
            h.abort();
        }
    }
    pub async fn shutdown(&mut self) {
        self.abort_all();
        while self.join_next().await.is_some() {}
    }
}
impl<T> Drop for JoinSet<T> {
    fn drop(&mut self) {
        for h in &self.set {
            h.abort();
        }
    }
}
