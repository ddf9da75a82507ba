//! Counting semaphore: `permits` available, FIFO among pollers is abstracted
//! to "any order".
use super::Cell;
use crate::ghost;
use std::sync::Arc;
use std::task::{Context, Poll};

/// When set, an acquire that could succeed may answer Pending (queued behind others).
nd::ghost! { pub static MAY_STALL: bool = false; }

pub(crate) fn stall() -> bool {
    unsafe { MAY_STALL.v && nd::any::<bool>() }
}
struct Inner {
    permits: usize,
    closed: bool,
    /// wakers kept
    waiting: u32,
}
impl Inner {
    fn wake(&mut self) {
        unsafe { ghost::WOKEN.v += self.waiting };
        self.waiting = 0;
    }
}
pub struct Semaphore(Cell<Inner>);

#[derive(Debug)]
pub struct AcquireError(());
impl std::fmt::Display for AcquireError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("semaphore closed")
    }
}
impl std::error::Error for AcquireError {}
#[derive(Debug, PartialEq, Eq)]
pub enum TryAcquireError {
    Closed,
    NoPermits,
}
impl std::fmt::Display for TryAcquireError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("no permits")
    }
}
impl std::error::Error for TryAcquireError {}

impl Semaphore {
    pub const MAX_PERMITS: usize = usize::MAX >> 3;
    pub const fn new(permits: usize) -> Self {
        assert!(permits <= Self::MAX_PERMITS, "a semaphore may not have more than MAX_PERMITS permits");
        Semaphore(Cell::new(Inner {
            permits,
            closed: false,
            waiting: 0,
        }))
    }
    pub fn available_permits(&self) -> usize {
        self.0.get().permits
    }
    pub fn add_permits(&self, n: usize) {
        let i = self.0.get();
        i.permits += n;
        i.wake();
    }
    pub fn forget_permits(&self, n: usize) -> usize {
        let i = self.0.get();
        let k = if n < i.permits { n } else { i.permits };
        i.permits -= k;
        k
    }
    pub fn close(&self) {
        let i = self.0.get();
        i.closed = true;
        i.wake();
    }
    pub fn is_closed(&self) -> bool {
        self.0.get().closed
    }
    fn take(&self, n: usize) -> Result<(), TryAcquireError> {
        let i = self.0.get();
        if i.closed {
            Err(TryAcquireError::Closed)
        } else if i.permits < n {
            Err(TryAcquireError::NoPermits)
        } else {
            i.permits -= n;
            Ok(())
        }
    }
    pub fn try_acquire(&self) -> Result<SemaphorePermit<'_>, TryAcquireError> {
        self.take(1)?;
        Ok(SemaphorePermit { sem: self, n: 1 })
    }
    pub fn try_acquire_owned(self: Arc<Self>) -> Result<OwnedSemaphorePermit, TryAcquireError> {
        self.take(1)?;
        Ok(OwnedSemaphorePermit { sem: self, n: 1 })
    }
    pub fn try_acquire_many_owned(self: Arc<Self>, n: u32) -> Result<OwnedSemaphorePermit, TryAcquireError> {
        self.take(n as usize)?;
        Ok(OwnedSemaphorePermit { sem: self, n })
    }
    pub async fn acquire_owned(self: Arc<Self>) -> Result<OwnedSemaphorePermit, AcquireError> {
        std::future::poll_fn(|cx| self.poll_take(cx, 1)).await?;
        Ok(OwnedSemaphorePermit { sem: self, n: 1 })
    }
    #[doc(hidden)]
    pub fn poll_take(&self, cx: &mut Context<'_>, n: usize) -> Poll<Result<(), AcquireError>> {
        let stall = stall();
        let i = self.0.get();
        if i.closed {
            return Poll::Ready(Err(AcquireError(())));
        }
        if i.permits >= n && !stall {
            i.permits -= n;
            return Poll::Ready(Ok(()));
        }
        if nd::is_task(cx.waker()) {
            i.waiting += 1;
            unsafe { ghost::REGISTERED.v += 1 };
        }
        Poll::Pending
    }
    #[doc(hidden)]
    pub fn permit(self: &Arc<Self>, n: u32) -> OwnedSemaphorePermit {
        OwnedSemaphorePermit { sem: self.clone(), n }
    }
}
impl std::fmt::Debug for Semaphore {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Semaphore")
    }
}

#[derive(Debug)]
pub struct SemaphorePermit<'a> {
    sem: &'a Semaphore,
    n: u32,
}
impl SemaphorePermit<'_> {
    pub fn forget(mut self) {
        self.n = 0;
    }
}
impl Drop for SemaphorePermit<'_> {
    fn drop(&mut self) {
        self.sem.add_permits(self.n as usize);
    }
}
#[derive(Debug)]
pub struct OwnedSemaphorePermit {
    sem: Arc<Semaphore>,
    n: u32,
}
impl OwnedSemaphorePermit {
    pub fn forget(mut self) {
        self.n = 0;
    }
    pub fn semaphore(&self) -> &Arc<Semaphore> {
        &self.sem
    }
    pub fn num_permits(&self) -> usize {
        self.n as usize
    }
}
impl Drop for OwnedSemaphorePermit {
    fn drop(&mut self) {
        self.sem.add_permits(self.n as usize);
    }
}
