//! MODEL (verification build only): a queue of futures, with the contract of
//! futures-util's `FuturesOrdered`: all are driven, results come out in queue order.
use super::futures_unordered::{new_id, poll_woken, set_parent, CAP};
use core::fmt;
use core::iter::FromIterator;
use core::pin::Pin;
use futures_core::future::Future;
use futures_core::stream::{FusedStream, Stream};
use futures_core::task::{Context, Poll};

const SLOTS: usize = 2 * CAP;
/// A queue of futures whose results come out in the order they were queued.
#[must_use = "streams do nothing unless polled"]
pub struct FuturesOrdered<T: Future> {
    e: [Option<(usize, T)>; SLOTS],
    out: [Option<T::Output>; SLOTS],
    /// slots used over the life of the queue: lo..hi
    lo: usize,
    hi: usize,
    n: usize,
}
impl<T: Future> Unpin for FuturesOrdered<T> {}
impl<T: Future> FuturesOrdered<T> {
    /// An empty queue.
    pub fn new() -> Self {
        FuturesOrdered { e: [const { None }; SLOTS], out: [const { None }; SLOTS], lo: CAP, hi: CAP, n: 0 }
    }
    /// Number of futures whose result was not yielded yet.
    pub fn len(&self) -> usize {
        self.n
    }
    /// Whether there is none.
    pub fn is_empty(&self) -> bool {
        self.n == 0
    }
    /// Same as `push_back`.
    pub fn push(&mut self, f: T) {
        self.push_back(f)
    }
    /// Adds at the end.
    pub fn push_back(&mut self, f: T) {
        assert!(self.hi < SLOTS, "model capacity exceeded");
        let old = core::mem::replace(&mut self.e[self.hi], Some((new_id(), f)));
        core::mem::forget(old);
        self.hi += 1;
        self.n += 1;
    }
    /// Adds at the front.
    pub fn push_front(&mut self, f: T) {
        assert!(self.lo > 0, "model capacity exceeded");
        self.lo -= 1;
        self.n += 1;
        let old = core::mem::replace(&mut self.e[self.lo], Some((new_id(), f)));
        core::mem::forget(old);
    }
    /// Removes all.
    pub fn clear(&mut self) {
        while self.lo < self.hi {
            self.e[self.lo] = None;
            self.out[self.lo] = None;
            self.lo += 1;
        }
        self.n = 0;
    }
}
impl<T: Future> Default for FuturesOrdered<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T: Future> Stream for FuturesOrdered<T> {
    type Item = T::Output;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        let s = unsafe { self.get_unchecked_mut() };
        if s.n == 0 {
            return Poll::Ready(None);
        }
        set_parent(cx);
        let mut first = true;
        let mut k = s.lo;
        while k < s.hi {
            let mut done = false;
            if let Some((id, f)) = &mut s.e[k] {
                if let Poll::Ready(x) = poll_woken(*id, f) {
                    if first {
                        s.e[k] = None;
                        s.n -= 1;
                        return Poll::Ready(Some(x));
                    }
                    let old = core::mem::replace(&mut s.out[k], Some(x));
                    core::mem::forget(old);
                    done = true;
                } else {
                    first = false;
                }
            } else if s.out[k].is_some() && first {
                s.n -= 1;
                return Poll::Ready(s.out[k].take());
            }
            if done {
                s.e[k] = None;
            }
            k += 1;
        }
        Poll::Pending
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.len(), Some(self.len()))
    }
}
impl<T: Future> fmt::Debug for FuturesOrdered<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "FuturesOrdered {{ ... }}")
    }
}
impl<T: Future> FromIterator<T> for FuturesOrdered<T> {
    fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
        let mut s = Self::new();
        for f in iter {
            s.push_back(f);
        }
        s
    }
}
impl<T: Future> FusedStream for FuturesOrdered<T> {
    fn is_terminated(&self) -> bool {
        self.is_empty()
    }
}
impl<T: Future> Extend<T> for FuturesOrdered<T> {
    fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
        for f in iter {
            self.push_back(f);
        }
    }
}
