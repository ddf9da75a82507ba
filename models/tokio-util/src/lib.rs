//! Assumed contracts of tokio-util's poll adaptors, over the model channel and semaphore.
pub mod sync {
    use std::sync::Arc;
    use std::task::{Context, Poll};
    use tokio::sync::{mpsc::Sender, OwnedSemaphorePermit, Semaphore};

    pub struct PollSemaphore {
        sem: Arc<Semaphore>,
    }
    impl PollSemaphore {
        pub fn new(sem: Arc<Semaphore>) -> Self {
            PollSemaphore { sem }
        }
        pub fn close(&self) {
            self.sem.close()
        }
        pub fn clone_inner(&self) -> Arc<Semaphore> {
            self.sem.clone()
        }
        pub fn into_inner(self) -> Arc<Semaphore> {
            self.sem
        }
        pub fn available_permits(&self) -> usize {
            self.sem.available_permits()
        }
        pub fn add_permits(&self, n: usize) {
            self.sem.add_permits(n)
        }
        pub fn poll_acquire(&mut self, cx: &mut Context<'_>) -> Poll<Option<OwnedSemaphorePermit>> {
            self.poll_acquire_many(cx, 1)
        }
        pub fn poll_acquire_many(&mut self, cx: &mut Context<'_>, n: u32) -> Poll<Option<OwnedSemaphorePermit>> {
            match self.sem.poll_take(cx, n as usize) {
                Poll::Ready(Ok(())) => Poll::Ready(Some(self.sem.permit(n))),
                Poll::Ready(Err(_)) => Poll::Ready(None),
                Poll::Pending => Poll::Pending,
            }
        }
    }
    impl Clone for PollSemaphore {
        fn clone(&self) -> Self {
            PollSemaphore::new(self.sem.clone())
        }
    }
    impl AsRef<Semaphore> for PollSemaphore {
        fn as_ref(&self) -> &Semaphore {
            &self.sem
        }
    }
    impl std::fmt::Debug for PollSemaphore {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("PollSemaphore")
        }
    }

    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct PollSendError<T>(Option<T>);
    impl<T> PollSendError<T> {
        pub fn into_inner(self) -> Option<T> {
            self.0
        }
    }
    impl<T> std::fmt::Display for PollSendError<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("channel closed")
        }
    }
    impl<T: std::fmt::Debug> std::error::Error for PollSendError<T> {}

    #[derive(Clone, Copy, PartialEq)]
    enum State {
        Idle,
        Acquiring,
        Ready,
        Closed,
    }
    /// The same four states as tokio-util's; in `Ready` it holds one slot of the
    /// channel until the item is sent, the send aborted or the sender dropped.
    pub struct PollSender<T> {
        /// the sender that the state machine holds (None once Closed)
        tx: Option<Sender<T>>,
        state: State,
        closed: bool,
    }
    impl<T> PollSender<T> {
        pub fn new(tx: Sender<T>) -> Self {
            PollSender { tx: Some(tx), state: State::Idle, closed: false }
        }
        fn to_closed(&mut self) {
            self.state = State::Closed;
            if self.closed {
                self.tx = None;
            }
        }
        pub fn poll_reserve(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), PollSendError<T>>> {
            match self.state {
                State::Closed => Poll::Ready(Err(PollSendError(None))),
                State::Ready => Poll::Ready(Ok(())),
                State::Idle | State::Acquiring => match self.tx.as_ref().unwrap().poll_slot(cx) {
                    Poll::Ready(Ok(())) => {
                        self.state = State::Ready;
                        Poll::Ready(Ok(()))
                    }
                    Poll::Ready(Err(())) => {
                        self.to_closed();
                        Poll::Ready(Err(PollSendError(None)))
                    }
                    Poll::Pending => {
                        self.state = State::Acquiring;
                        Poll::Pending
                    }
                },
            }
        }
        pub fn send_item(&mut self, t: T) -> Result<(), PollSendError<T>> {
            match self.state {
                State::Idle | State::Acquiring => {
                    panic!("`send_item` called without first calling `poll_reserve`")
                }
                State::Closed => Err(PollSendError(Some(t))),
                State::Ready => {
                    let _ = self.tx.as_ref().unwrap().push_reserved(t);
                    self.state = State::Idle;
                    if self.closed {
                        self.to_closed();
                    }
                    Ok(())
                }
            }
        }
        pub fn is_closed(&self) -> bool {
            self.state == State::Closed || self.closed
        }
        pub fn get_ref(&self) -> Option<&Sender<T>> {
            if self.closed {
                None
            } else {
                self.tx.as_ref()
            }
        }
        pub fn close(&mut self) {
            self.closed = true;
            match self.state {
                State::Idle | State::Acquiring => self.to_closed(),
                _ => {}
            }
        }
        pub fn abort_send(&mut self) -> bool {
            match self.state {
                State::Acquiring => {
                    self.state = State::Idle;
                    true
                }
                State::Ready => {
                    self.tx.as_ref().unwrap().release_slot();
                    self.state = State::Idle;
                    if self.closed {
                        self.to_closed();
                    }
                    true
                }
                _ => false,
            }
        }
    }
    impl<T> Drop for PollSender<T> {
        fn drop(&mut self) {
            if self.state == State::Ready {
                self.tx.as_ref().unwrap().release_slot();
            }
        }
    }
    impl<T> Clone for PollSender<T> {
        fn clone(&self) -> Self {
            match self.get_ref() {
                Some(tx) => PollSender::new(tx.clone()),
                None => PollSender { tx: None, state: State::Closed, closed: true },
            }
        }
    }
    impl<T> std::fmt::Debug for PollSender<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("PollSender")
        }
    }
}
