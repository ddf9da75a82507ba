//! MODEL (verification build only): a set of futures, with the contract of
//! futures-util's `FuturesUnordered`: a future is polled only after it was pushed
//! or woken; waking any of them wakes the task that polled the set; each completed
//! future is yielded once and removed; `None` when empty.  Holds up to `CAP`
//! futures over its life ("model capacity exceeded" beyond); the futures are kept
//! inline, so only futures that do not rely on their address may be put in.
use core::cell::UnsafeCell;
use core::fmt;
use core::iter::FromIterator;
use core::pin::Pin;
use core::task::{RawWaker, RawWakerVTable, Waker};
use futures_core::future::Future;
use futures_core::stream::{FusedStream, Stream};
use futures_core::task::{Context, Poll};

/// Futures per set over its life.
pub const CAP: usize = 5;
const MAX: usize = 16;
nd::ghost! { static WOKEN: [bool; MAX] = [false; MAX]; }
nd::ghost! { static PARENT: Option<Waker> = None; }
nd::ghost! { static NEXT: usize = 0; }
/// When set, the woken futures are polled in an arbitrary order.
nd::ghost! { pub static ANY_ORDER: bool = false; }
/// When set, the environment may have woken any of the futures since the last poll.
nd::ghost! { pub static ANY_WAKE: bool = false; }
/// When set, the environment has woken all of them.
nd::ghost! { pub static ALL_WAKE: bool = false; }
/// Wakeups of the task through an `AtomicWaker`.
nd::ghost! { pub static WAKES: u32 = 0; }
/// Polls of a nonempty set: each leaves the polling task registered with all of it.
nd::ghost! { pub static REGISTERED: u32 = 0; }

static VTABLE: RawWakerVTable = RawWakerVTable::new(vt_clone, vt_wake, vt_wake, vt_drop);
unsafe fn vt_clone(p: *const ()) -> RawWaker {
    RawWaker::new(p, &VTABLE)
}
unsafe fn vt_wake(p: *const ()) {
    wake(p as usize - 2)
}
/// Wakes future `i`, and with it the task that polled its set.
pub(crate) fn wake(i: usize) {
    unsafe {
        WOKEN.v[i] = true;
        #[allow(static_mut_refs)]
        if let Some(w) = &PARENT.v {
            w.wake_by_ref();
        }
    }
}
unsafe fn vt_drop(_: *const ()) {}

pub(crate) fn new_id() -> usize {
    unsafe {
        let id = NEXT.v;
        NEXT.v += 1;
        assert!(id < MAX, "model capacity exceeded");
        WOKEN.v[id] = true;
        id
    }
}
/// Polls `fut` if it was woken.
pub(crate) fn poll_woken<F: Future>(id: usize, fut: &mut F) -> Poll<F::Output> {
    unsafe {
        if WOKEN.v[id] || ALL_WAKE.v || (ANY_WAKE.v && nd::any::<bool>()) {
            WOKEN.v[id] = false;
            let w = Waker::from_raw(RawWaker::new((id + 2) as *const (), &VTABLE));
            let mut c = Context::from_waker(&w);
            return Pin::new_unchecked(fut).poll(&mut c);
        }
    }
    Poll::Pending
}
pub(crate) fn set_parent(cx: &Context<'_>) {
    unsafe {
        PARENT.v = Some(cx.waker().clone());
        if nd::is_task(cx.waker()) {
            REGISTERED.v += 1;
        }
    }
}

/// Room for a value.  (No union and no shared tag: those cost the verifier its constants.)
#[cfg(kani)]
struct Slot<T>(core::mem::ManuallyDrop<T>);
#[cfg(kani)]
impl<T> Slot<T> {
    fn get(&self) -> &T {
        &self.0
    }
    fn get_mut(&mut self) -> &mut T {
        &mut self.0
    }
    fn put(&mut self, t: T) {
        self.0 = core::mem::ManuallyDrop::new(t);
    }
    fn take(&mut self) -> T {
        unsafe { core::mem::ManuallyDrop::take(&mut self.0) }
    }
}
#[cfg(kani)]
fn slots<T>() -> [Slot<T>; CAP] {
    unsafe { core::mem::MaybeUninit::uninit().assume_init() }
}
#[cfg(not(kani))]
struct Slot<T>(Option<T>);
#[cfg(not(kani))]
impl<T> Slot<T> {
    fn get(&self) -> &T {
        self.0.as_ref().unwrap()
    }
    fn get_mut(&mut self) -> &mut T {
        self.0.as_mut().unwrap()
    }
    fn put(&mut self, t: T) {
        self.0 = Some(t);
    }
    fn take(&mut self) -> T {
        self.0.take().unwrap()
    }
}
#[cfg(not(kani))]
fn slots<T>() -> [Slot<T>; CAP] {
    [const { Slot(None) }; CAP]
}
struct Set<Fut> {
    /// there is a future in the slot
    has: [bool; CAP],
    id: [usize; CAP],
    e: [Slot<Fut>; CAP],
    /// slots used so far
    used: usize,
    n: usize,
    terminated: bool,
}
impl<Fut> Set<Fut> {
    fn remove(&mut self, i: usize) {
        if self.has[i] {
            self.has[i] = false;
            drop(self.e[i].take())
        }
    }
    fn iter(&self) -> impl Iterator<Item = &Fut> {
        self.e.iter().zip(&self.has).filter(|x| *x.1).map(|x| x.0.get())
    }
    fn iter_mut(&mut self) -> impl Iterator<Item = &mut Fut> {
        self.e.iter_mut().zip(&self.has).filter(|x| *x.1).map(|x| x.0.get_mut())
    }
}
impl<Fut> Drop for Set<Fut> {
    fn drop(&mut self) {
        let mut i = 0;
        while i < CAP {
            self.remove(i);
            i += 1;
        }
    }
}
/// A set of futures which may complete in any order.
#[must_use = "streams do nothing unless polled"]
pub struct FuturesUnordered<Fut> {
    s: UnsafeCell<Set<Fut>>,
}
unsafe impl<Fut: Send> Send for FuturesUnordered<Fut> {}
unsafe impl<Fut: Send + Sync> Sync for FuturesUnordered<Fut> {}
impl<Fut> Unpin for FuturesUnordered<Fut> {}
impl<Fut> Default for FuturesUnordered<Fut> {
    fn default() -> Self {
        Self::new()
    }
}
impl<Fut> FuturesUnordered<Fut> {
    /// Constructs a new, empty set.
    pub fn new() -> Self {
        FuturesUnordered { s: UnsafeCell::new(Set { has: [false; CAP], id: [0; CAP], e: slots(), used: 0, n: 0, terminated: false }) }
    }
    #[allow(clippy::mut_from_ref)]
    fn v(&self) -> &mut Set<Fut> {
        unsafe { &mut *self.s.get() }
    }
    /// Number of futures in the set.
    pub fn len(&self) -> usize {
        self.v().n
    }
    /// Whether the set is empty.
    pub fn is_empty(&self) -> bool {
        self.v().n == 0
    }
    /// Adds a future.
    pub fn push(&self, fut: Fut) {
        let s = self.v();
        s.terminated = false;
        let i = s.used;
        assert!(i < CAP, "model capacity exceeded");
        s.used += 1;
        s.n += 1;
        s.has[i] = true;
        s.id[i] = new_id();
        s.e[i].put(fut);
    }
    /// Removes all the futures.
    pub fn clear(&mut self) {
        let s = self.v();
        let mut i = 0;
        while i < CAP {
            s.remove(i);
            i += 1;
        }
        s.n = 0;
    }
    /// Iterates over the futures.
    pub fn iter(&self) -> impl Iterator<Item = &Fut>
    where
        Fut: Unpin,
    {
        self.v().iter()
    }
    /// Iterates over the futures.
    pub fn iter_mut(&mut self) -> impl Iterator<Item = &mut Fut>
    where
        Fut: Unpin,
    {
        self.v().iter_mut()
    }
    /// Iterates over the futures.
    pub fn iter_pin_mut(self: Pin<&mut Self>) -> impl Iterator<Item = Pin<&mut Fut>> {
        unsafe { self.get_unchecked_mut() }.v().iter_mut().map(|x| unsafe { Pin::new_unchecked(x) })
    }
}
impl<Fut: Future> Stream for FuturesUnordered<Fut> {
    type Item = Fut::Output;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        let s = self.v();
        if s.n == 0 {
            s.terminated = true;
            return Poll::Ready(None);
        }
        set_parent(cx);
        let n = s.used;
        let start = if unsafe { ANY_ORDER.v } { nd::below(n) } else { 0 };
        let mut k = 0;
        while k < n {
            let i = if start + k < n { start + k } else { start + k - n };
            if s.has[i] {
                if let Poll::Ready(x) = poll_woken(s.id[i], s.e[i].get_mut()) {
                    s.remove(i);
                    s.n -= 1;
                    return Poll::Ready(Some(x));
                }
            }
            k += 1;
        }
        Poll::Pending
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.len(), Some(self.len()))
    }
}
impl<Fut: Future> FusedStream for FuturesUnordered<Fut> {
    fn is_terminated(&self) -> bool {
        self.v().terminated
    }
}
impl<Fut> fmt::Debug for FuturesUnordered<Fut> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "FuturesUnordered {{ ... }}")
    }
}
impl<Fut> FromIterator<Fut> for FuturesUnordered<Fut> {
    fn from_iter<I: IntoIterator<Item = Fut>>(iter: I) -> Self {
        let s = Self::new();
        for f in iter {
            s.push(f);
        }
        s
    }
}
impl<Fut> Extend<Fut> for FuturesUnordered<Fut> {
    fn extend<I: IntoIterator<Item = Fut>>(&mut self, iter: I) {
        for f in iter {
            self.push(f);
        }
    }
}
