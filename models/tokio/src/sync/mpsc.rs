//! FIFO channel.  A bounded channel of capacity `cap` holds at most `cap` reserved slots and
//! queued messages together.  The state of every channel lives in a static table (indexed by the
//! channel), which the verifier tracks field by field; so are the messages.
use super::Words;
use crate::ghost;
use std::marker::PhantomData;
use std::task::{Context, Poll};

/// The queue of the model holds at most this many messages at once.
pub const MAX: usize = 4;
/// Channels per run.
const CHANS: usize = 3;

#[derive(Clone, Copy)]
struct Inner {
    /// ring: `len` messages from `head` on
    q: [Words; MAX],
    head: usize,
    len: usize,
    senders: usize,
    bounded: bool,
    cap: usize,
    /// free slots of a bounded channel
    free: usize,
    /// slots reserved and neither sent nor released
    outstanding: usize,
    rx_closed: bool,
    rx_waits: bool,
    /// wakers of senders waiting for a slot
    tx_waiting: u32,
}
const NEW: Inner = Inner {
    q: [Words::NEW; MAX],
    head: 0,
    len: 0,
    senders: 1,
    bounded: false,
    cap: 0,
    free: 0,
    outstanding: 0,
    rx_closed: false,
    rx_waits: false,
    tx_waiting: 0,
};
nd::ghost! { static TABLE: [Inner; CHANS] = [NEW; CHANS]; }
nd::ghost! { static NEXT: usize = 0; }
fn st(id: usize) -> &'static mut Inner {
    unsafe { &mut (*std::ptr::addr_of_mut!(TABLE.v))[id] }
}
impl Inner {
    fn wake_rx(&mut self) {
        if self.rx_waits {
            self.rx_waits = false;
            unsafe { ghost::WOKEN.v += 1 };
        }
    }
    fn wake_tx(&mut self) {
        unsafe { ghost::WOKEN.v += self.tx_waiting };
        self.tx_waiting = 0;
    }
}
fn push<T>(id: usize, t: T) {
    let i = st(id);
    assert!(i.len < MAX, "model capacity exceeded");
    let k = (i.head + i.len) % MAX;
    i.q[k].put(t);
    i.len += 1;
    i.wake_rx();
}
fn pop<T>(id: usize) -> Option<T> {
    let i = st(id);
    if i.len == 0 {
        return None;
    }
    let t = unsafe { i.q[i.head].get::<T>() };
    i.head = (i.head + 1) % MAX;
    i.len -= 1;
    i.free += 1;
    i.wake_tx();
    Some(t)
}
pub mod error {
    #[derive(PartialEq, Eq, Clone, Copy)]
    pub struct SendError<T>(pub T);
    impl<T> std::fmt::Debug for SendError<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("SendError")
        }
    }
    impl<T> std::fmt::Display for SendError<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("channel closed")
        }
    }
    impl<T> std::error::Error for SendError<T> {}
    #[derive(PartialEq, Eq, Clone, Copy)]
    pub enum TrySendError<T> {
        Full(T),
        Closed(T),
    }
    impl<T> std::fmt::Debug for TrySendError<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("TrySendError")
        }
    }
    #[derive(PartialEq, Eq, Clone, Copy, Debug)]
    pub enum TryRecvError {
        Empty,
        Disconnected,
    }
}
use error::*;


fn chan(bounded: bool, cap: usize) -> usize {
    unsafe {
        let id = NEXT.v;
        assert!(id < CHANS, "model capacity exceeded");
        NEXT.v = id + 1;
        let i = st(id);
        i.bounded = bounded;
        i.cap = cap;
        i.free = cap;
        id
    }
}
pub fn channel<T>(cap: usize) -> (Sender<T>, Receiver<T>) {
    assert!(cap > 0, "mpsc bounded channel requires buffer > 0");
    assert!(cap <= usize::MAX >> 3, "a semaphore may not have more than MAX_PERMITS permits");
    let c = chan(true, cap);
    (Sender(c, PhantomData), Receiver(c, PhantomData))
}
pub fn unbounded_channel<T>() -> (UnboundedSender<T>, UnboundedReceiver<T>) {
    let c = chan(false, 0);
    (UnboundedSender(c, PhantomData), UnboundedReceiver(c, PhantomData))
}

macro_rules! sender {
    ($s:ident) => {
        pub struct $s<T>(usize, PhantomData<*mut T>);
        unsafe impl<T: Send> Send for $s<T> {}
        unsafe impl<T: Send> Sync for $s<T> {}
        impl<T> Unpin for $s<T> {}
        impl<T> $s<T> {
            pub fn is_closed(&self) -> bool {
                st(self.0).rx_closed
            }
            pub fn same_channel(&self, o: &Self) -> bool {
                self.0 == o.0
            }
        }
        impl<T> Clone for $s<T> {
            fn clone(&self) -> Self {
                st(self.0).senders += 1;
                $s(self.0, PhantomData)
            }
        }
        impl<T> Drop for $s<T> {
            fn drop(&mut self) {
                let i = st(self.0);
                i.senders -= 1;
                if i.senders == 0 {
                    i.wake_rx();
                }
            }
        }
        impl<T> std::fmt::Debug for $s<T> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("Sender")
            }
        }
    };
}
sender!(Sender);
sender!(UnboundedSender);

impl<T> Sender<T> {
    pub fn max_capacity(&self) -> usize {
        st(self.0).cap
    }
    pub fn capacity(&self) -> usize {
        st(self.0).free
    }
    pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
        let i = st(self.0);
        if i.rx_closed {
            Err(TrySendError::Closed(t))
        } else if i.free == 0 {
            Err(TrySendError::Full(t))
        } else {
            i.free -= 1;
            push(self.0, t);
            Ok(())
        }
    }
    pub async fn send(&self, t: T) -> Result<(), SendError<T>> {
        if std::future::poll_fn(|cx| self.poll_slot(cx)).await.is_err() {
            return Err(SendError(t));
        }
        self.push_reserved(t)
    }
    /// Take a slot of the channel (PollSender's half of the protocol).
    #[doc(hidden)]
    pub fn poll_slot(&self, cx: &mut Context<'_>) -> Poll<Result<(), ()>> {
        let i = st(self.0);
        if i.rx_closed {
            Poll::Ready(Err(()))
        } else if i.free > 0 && !super::semaphore::stall() {
            i.free -= 1;
            i.outstanding += 1;
            Poll::Ready(Ok(()))
        } else {
            if nd::is_task(cx.waker()) {
                i.tx_waiting += 1;
                unsafe { ghost::REGISTERED.v += 1 };
            }
            Poll::Pending
        }
    }
    #[doc(hidden)]
    pub fn push_reserved(&self, t: T) -> Result<(), SendError<T>> {
        // A permit taken before the receiver closed still delivers, as in tokio.
        st(self.0).outstanding -= 1;
        push(self.0, t);
        Ok(())
    }
    #[doc(hidden)]
    pub fn release_slot(&self) {
        let i = st(self.0);
        i.free += 1;
        i.outstanding -= 1;
        i.wake_tx();
        i.wake_rx();
    }
}
impl<T> UnboundedSender<T> {
    pub fn send(&self, t: T) -> Result<(), SendError<T>> {
        if self.is_closed() {
            return Err(SendError(t));
        }
        push(self.0, t);
        Ok(())
    }
}

macro_rules! receiver {
    ($r:ident) => {
        pub struct $r<T>(usize, PhantomData<*mut T>);
        unsafe impl<T: Send> Send for $r<T> {}
        unsafe impl<T: Send> Sync for $r<T> {}
        impl<T> Unpin for $r<T> {}
        impl<T> $r<T> {
            pub fn poll_recv(&mut self, cx: &mut Context<'_>) -> Poll<Option<T>> {
                let i = st(self.0);
                if i.len > 0 {
                    return Poll::Ready(pop(self.0));
                }
                if (i.senders == 0 || i.rx_closed) && i.outstanding == 0 {
                    Poll::Ready(None)
                } else {
                    i.rx_waits = nd::is_task(cx.waker());
                    if i.rx_waits {
                        unsafe { ghost::REGISTERED.v += 1 };
                    }
                    Poll::Pending
                }
            }
            pub async fn recv(&mut self) -> Option<T> {
                std::future::poll_fn(|cx| self.poll_recv(cx)).await
            }
            pub fn try_recv(&mut self) -> Result<T, TryRecvError> {
                match pop(self.0) {
                    Some(t) => Ok(t),
                    None if st(self.0).senders == 0 => Err(TryRecvError::Disconnected),
                    None => Err(TryRecvError::Empty),
                }
            }
            pub fn close(&mut self) {
                let i = st(self.0);
                i.rx_closed = true;
                i.wake_tx();
            }
            pub fn is_closed(&self) -> bool {
                st(self.0).rx_closed
            }
            pub fn is_empty(&self) -> bool {
                st(self.0).len == 0
            }
            pub fn len(&self) -> usize {
                st(self.0).len
            }
        }
        impl<T> Drop for $r<T> {
            fn drop(&mut self) {
                self.close();
                // queued messages are dropped with the receiver
                while st(self.0).len > 0 {
                    drop(pop::<T>(self.0));
                }
            }
        }
        impl<T> std::fmt::Debug for $r<T> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("Receiver")
            }
        }
    };
}
receiver!(Receiver);
receiver!(UnboundedReceiver);
