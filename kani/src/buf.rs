//! Shared by the buffer contracts (C07, C08, C09).
pub use crate::env::*;
pub use tower::buffer::error::{Closed, ServiceError};
pub use tower::buffer::{future::ResponseFuture, Buffer};

pub type B = Buffer<u8, Fut>;
pub type R = ResponseFuture<Fut>;

/// Readiness of a handle: 0 Pending (registered), 1 Ready, 2 error.
pub fn ready(b: &mut B, cx: &mut Context<'_>) -> u8 {
    let r0 = registered();
    let r = b.poll_ready(cx);
    let x = match &r {
        Poll::Pending => {
            assert!(registered() > r0, "pending: the task is registered");
            0
        }
        Poll::Ready(Ok(())) => 1,
        Poll::Ready(Err(_)) => 2,
    };
    forget(r);
    x
}
/// A request through a handle that must be ready.
pub fn send(b: &mut B, cx: &mut Context<'_>) -> (u8, R) {
    assert!(ready(b, cx) == 1, "ready while there is capacity");
    let q = any();
    (q, b.call(q))
}
/// The worker runs once; true: it finished.
pub fn work<W: Future<Output = ()>>(w: &mut W, cx: &mut Context<'_>) -> bool {
    let r0 = registered();
    let r = poll(w, cx);
    assert!(r.is_ready() || registered() > r0, "pending: the worker is registered");
    r.is_ready()
}
/// The response is that of call `t` (polled once, answering `x`), unchanged.
pub fn is_response(f: &mut R, t: usize, cx: &mut Context<'_>) {
    let n = g().fut_polls[t];
    let r = poll(f, cx);
    assert!(g().fut_polls[t] == n + 1, "the response future is the one of its own request");
    match &r {
        Poll::Pending => assert!(!done(t), "pending while the response is"),
        Poll::Ready(r) => assert!(same_boxed(t, r), "each response goes to its own caller, unchanged"),
    }
    forget(r);
}
pub fn is_pending(f: &mut R, cx: &mut Context<'_>) {
    let r0 = registered();
    let r = poll(f, cx);
    assert!(r.is_pending(), "not handed over yet: pending");
    assert!(registered() > r0, "pending: the task is registered");
    forget(r);
}
/// The error is the failure of the service.
pub fn service_error(e: &tower::BoxError) -> bool {
    match e.downcast_ref::<ServiceError>() {
        Some(s) => match std::error::Error::source(s) {
            Some(m) => match m.downcast_ref::<MyErr>() {
                Some(m) => m.0 == g().ready_err,
                None => false,
            },
            None => false,
        },
        None => false,
    }
}
pub fn closed_error(e: &tower::BoxError) -> bool {
    e.is::<Closed>()
}
pub fn woken() -> u32 {
    unsafe { tokio::ghost::WOKEN.v }
}
