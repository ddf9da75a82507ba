//! Spawned tasks.  A task runs when its JoinHandle is polled (the scheduler ran
//! it just before) or when a harness runs the detached ones.
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};

nd::ghost! { pub static SPAWNED: u32 = 0; }
nd::ghost! { pub static ABORTED: u32 = 0; }
/// Handles dropped while the task was still running and not aborted.
nd::ghost! { pub static DETACHED: u32 = 0; }
/// What happened to the task before its handle is polled: 0 it ran (was polled
/// once), 1 it did not run, 2 the runtime cancelled it, 255 any of these.
nd::ghost! { pub static SCHED: u8 = 0; }

pub struct JoinError(());
impl JoinError {
    pub fn is_cancelled(&self) -> bool {
        true
    }
    pub fn is_panic(&self) -> bool {
        false
    }
}
impl std::fmt::Debug for JoinError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("JoinError")
    }
}
impl std::fmt::Display for JoinError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("JoinError")
    }
}
impl std::error::Error for JoinError {}

pub struct JoinHandle<T> {
    task: Option<Pin<Box<dyn Future<Output = T> + Send>>>,
    aborted: std::cell::Cell<bool>,
    done: bool,
}
unsafe impl<T> Sync for JoinHandle<T> {}
impl<T> JoinHandle<T> {
    pub fn abort(&self) {
        unsafe { ABORTED.v += 1 };
        self.aborted.set(true);
    }
    pub fn is_finished(&self) -> bool {
        self.done
    }
}
impl<T> std::fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("JoinHandle")
    }
}
impl<T> Drop for JoinHandle<T> {
    fn drop(&mut self) {
        if !self.done && !self.aborted.get() {
            unsafe { DETACHED.v += 1 };
        }
    }
}
impl<T> Unpin for JoinHandle<T> {}
impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        nd::check!(!self.done, "JoinHandle polled after completion");
        let s = match unsafe { SCHED.v } {
            255 => nd::below(3) as u8,
            x => x,
        };
        if self.aborted.get() || s == 2 {
            self.done = true;
            self.task = None;
            return Poll::Ready(Err(JoinError(())));
        }
        if s == 1 {
            unsafe { crate::ghost::REGISTERED.v += 1 };
            return Poll::Pending;
        }
        match self.task.as_mut().unwrap().as_mut().poll(cx) {
            Poll::Ready(v) => {
                self.done = true;
                self.task = None;
                Poll::Ready(Ok(v))
            }
            Poll::Pending => Poll::Pending,
        }
    }
}
pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    unsafe { SPAWNED.v += 1 };
    JoinHandle {
        task: Some(Box::pin(f)),
        aborted: std::cell::Cell::new(false),
        done: false,
    }
}
pub async fn yield_now() {}
