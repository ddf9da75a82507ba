//! One value from one sender to one receiver.  The state of every channel lives in a static
//! table (indexed by the channel), which the verifier tracks field by field; so does the
//! value.
use super::Words;
use crate::ghost;
use std::future::Future;
use std::marker::PhantomData;
use std::pin::Pin;
use std::task::{Context, Poll};

/// Channels per run.
const MAX: usize = 12;
#[derive(Clone, Copy)]
struct One {
    has: bool,
    value: Words,
    tx_gone: bool,
    rx_closed: bool,
    rx_waits: bool,
    tx_waits: bool,
}
const NEW: One = One { has: false, value: Words::NEW, tx_gone: false, rx_closed: false, rx_waits: false, tx_waits: false };
nd::ghost! { static CHANS: [One; MAX] = [NEW; MAX]; }
nd::ghost! { static NEXT: usize = 0; }
fn st(id: usize) -> &'static mut One {
    unsafe { &mut (*std::ptr::addr_of_mut!(CHANS.v))[id] }
}
fn take<T>(id: usize) -> Option<T> {
    let i = st(id);
    if i.has {
        i.has = false;
        Some(unsafe { i.value.get() })
    } else {
        None
    }
}
fn wake(waits: &mut bool) {
    if *waits {
        *waits = false;
        unsafe { ghost::WOKEN.v += 1 };
    }
}
fn register(waits: &mut bool, cx: &Context<'_>) {
    *waits = nd::is_task(cx.waker());
    if *waits {
        unsafe { ghost::REGISTERED.v += 1 };
    }
}
/// An end without a channel.
const NONE: usize = usize::MAX;
pub struct Sender<T>(usize, PhantomData<*mut T>);
pub struct Receiver<T>(usize, PhantomData<*mut T>);
unsafe impl<T: Send> Send for Sender<T> {}
unsafe impl<T: Send> Sync for Sender<T> {}
unsafe impl<T: Send> Send for Receiver<T> {}
unsafe impl<T: Send> Sync for Receiver<T> {}

pub mod error {
    #[derive(Debug, PartialEq, Eq, Clone)]
    pub struct RecvError(pub(super) ());
    impl std::fmt::Display for RecvError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("channel closed")
        }
    }
    impl std::error::Error for RecvError {}
    #[derive(Debug, PartialEq, Eq, Clone)]
    pub enum TryRecvError {
        Empty,
        Closed,
    }
    impl std::fmt::Display for TryRecvError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("empty or closed")
        }
    }
    impl std::error::Error for TryRecvError {}
}
use error::*;


pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
    unsafe {
        let id = NEXT.v;
        assert!(id < MAX, "model capacity exceeded");
        NEXT.v = id + 1;
        (Sender(id, PhantomData), Receiver(id, PhantomData))
    }
}
impl<T> Sender<T> {
    pub fn send(mut self, t: T) -> Result<(), T> {
        let id = self.0;
        self.0 = NONE;
        let i = st(id);
        i.tx_gone = true;
        if i.rx_closed {
            return Err(t);
        }
        i.has = true;
        i.value.put(t);
        wake(&mut i.rx_waits);
        Ok(())
    }
    pub fn is_closed(&self) -> bool {
        st(self.0).rx_closed
    }
    pub fn poll_closed(&mut self, cx: &mut Context<'_>) -> Poll<()> {
        let i = st(self.0);
        if i.rx_closed {
            Poll::Ready(())
        } else {
            register(&mut i.tx_waits, cx);
            Poll::Pending
        }
    }
    pub async fn closed(&mut self) {
        std::future::poll_fn(|cx| self.poll_closed(cx)).await
    }
}
impl<T> Drop for Sender<T> {
    fn drop(&mut self) {
        if self.0 != NONE {
            let i = st(self.0);
            i.tx_gone = true;
            wake(&mut i.rx_waits);
        }
    }
}
impl<T> Receiver<T> {
    pub fn close(&mut self) {
        if self.0 != NONE {
            let i = st(self.0);
            i.rx_closed = true;
            wake(&mut i.tx_waits);
        }
    }
    pub fn try_recv(&mut self) -> Result<T, TryRecvError> {
        if self.0 == NONE {
            return Err(TryRecvError::Closed);
        }
        let i = st(self.0);
        let r = match take::<T>(self.0) {
            Some(t) => Ok(t),
            None if i.tx_gone || i.rx_closed => Err(TryRecvError::Closed),
            None => return Err(TryRecvError::Empty),
        };
        self.0 = NONE;
        r
    }
}
impl<T> Unpin for Receiver<T> {}
impl<T> Future for Receiver<T> {
    type Output = Result<T, RecvError>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        assert!(self.0 != NONE, "called after complete");
        let i = st(self.0);
        let r = match take::<T>(self.0) {
            Some(t) => Ok(t),
            None if i.tx_gone || i.rx_closed => Err(RecvError(())),
            None => {
                register(&mut i.rx_waits, cx);
                return Poll::Pending;
            }
        };
        self.0 = NONE;
        Poll::Ready(r)
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        if self.0 != NONE {
            let i = st(self.0);
            i.rx_closed = true;
            drop(take::<T>(self.0));
            wake(&mut i.tx_waits);
        }
    }
}
impl<T> std::fmt::Debug for Sender<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Sender")
    }
}
impl<T> std::fmt::Debug for Receiver<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Receiver")
    }
}
