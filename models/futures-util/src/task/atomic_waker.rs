//! MODEL (verification build only): keeps the last waker registered; `wake` wakes it and forgets
//! it.  A waker is known by its data: that of the task (1) or of a future in a set (from 2 on).
use crate::stream::futures_unordered as set;
use core::cell::Cell;
use core::fmt;
use core::task::Waker;

/// A synchronization primitive for task wakeup.
pub struct AtomicWaker {
    w: Cell<usize>,
}
unsafe impl Send for AtomicWaker {}
unsafe impl Sync for AtomicWaker {}
impl AtomicWaker {
    /// Create an `AtomicWaker`.
    pub const fn new() -> Self {
        AtomicWaker { w: Cell::new(0) }
    }
    /// Registers the waker to be notified on calls to `wake`.
    pub fn register(&self, waker: &Waker) {
        self.w.set(waker.data() as usize);
    }
    /// Calls `wake` on the last `Waker` passed to `register`.
    pub fn wake(&self) {
        let w = self.w.replace(0);
        if w >= 2 {
            set::wake(w - 2);
        } else if w == 1 {
            unsafe { set::WAKES.v += 1 }
        }
    }
}
impl Default for AtomicWaker {
    fn default() -> Self {
        AtomicWaker::new()
    }
}
impl fmt::Debug for AtomicWaker {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "AtomicWaker")
    }
}
