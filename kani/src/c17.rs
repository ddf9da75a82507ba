//! C17 pending-request load.
use crate::env::*;
use crate::{cx, proof};
use tower::load::pending_requests::{Count, Handle};
use tower::load::{CompleteOnResponse, Load, PendingRequests, TrackCompletion};

/// `Count` is opaque: these are the loads of a service with 0, 1, 2, 3 calls outstanding
/// (zero is also `Count::default()`, and they are strictly increasing).
fn counts() -> [Count; 4] {
    struct Quiet;
    impl Service<u8> for Quiet {
        type Response = u8;
        type Error = MyErr;
        type Future = std::future::Pending<Result<u8, MyErr>>;
        fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), MyErr>> {
            Poll::Ready(Ok(()))
        }
        fn call(&mut self, _: u8) -> Self::Future {
            std::future::pending()
        }
    }
    let mut s = PendingRequests::new(Quiet, CompleteOnResponse::default());
    let a = s.load();
    forget(s.call(0));
    let b = s.load();
    forget(s.call(0));
    let c = s.load();
    forget(s.call(0));
    let d = s.load();
    assert!(a == Count::default(), "no call outstanding: zero");
    assert!(a < b && b < c && c < d, "the load rises at each call");
    forget(s);
    [a, b, c, d]
}
//@ proof fns="PendingRequests::load, PendingRequests::call" note="the scale: strictly increasing from the default count"
proof!(scale, 3, {
    let _ = counts();
});

/// Makes a call on a ready service.
fn call<C: TrackCompletion<Handle, u8>>(s: &mut PendingRequests<Svc, C>, cx: &mut Context<'_>) -> <PendingRequests<Svc, C> as Service<u8>>::Future {
    let p0 = g().polls;
    let r = s.poll_ready(cx);
    assert!(g().polls == p0 + 1 && same_ready(&r), "readiness is passed through");
    assume(matches!(r, Poll::Ready(Ok(()))));
    let (n, q) = (g().calls, any());
    let f = s.call(q);
    assert!(g().calls == n + 1 && g().req[n] == q, "the request reaches the service once");
    f
}
/// One call: its whole life; the load afterwards.
fn life<F: Future<Output = Result<u8, MyErr>>>(t: usize, mut f: F, cx: &mut Context<'_>, load: impl Fn() -> Count, with: Count, without: Count) {
    assert!(load() == with, "a call outstanding counts");
    let n = below(3);
    let mut i = 0;
    while i < n {
        let r = poll(&mut f, cx);
        match &r {
            Poll::Pending => assert!(!done(t) && load() == with, "outstanding while the response is pending"),
            Poll::Ready(r) => {
                assert!(same(t, r), "the response is passed through");
                if r.is_ok() {
                    assert!(load() == without, "the response completed: it no longer counts");
                } else {
                    assert!(load() == with, "failed: it counts until its future is dropped");
                }
                break;
            }
        }
        i += 1;
    }
    drop(f);
    assert!(load() == without, "completed, failed or abandoned: it no longer counts");
}
//@ proof fns="PendingRequests::{new, load, poll_ready, call}, TrackCompletionFuture::{new, poll}, CompleteOnResponse::track_completion" note="one call, any answers, dropped at any point, after 0..2 others made and still outstanding"
proof!(one, 4, {
    cx!(w, cx);
    let c = counts();
    let mut s = PendingRequests::new(Svc::new(), CompleteOnResponse::default());
    assert!(s.load() == c[0], "no call yet");
    let k = below(3);
    let mut i = 0;
    while i < k {
        forget(call(&mut s, &mut cx));
        i += 1;
    }
    let f = call(&mut s, &mut cx);
    life(k, f, &mut cx, || s.load(), c[k + 1], c[k]);
    forget(s);
});
//@ proof fns="PendingRequests::{load, call}, TrackCompletionFuture::poll" note="two calls that end in either order"
proof!(two, 4, {
    cx!(w, cx);
    let c = counts();
    let mut s = PendingRequests::new(Svc::new(), CompleteOnResponse::default());
    let a = call(&mut s, &mut cx);
    let b = call(&mut s, &mut cx);
    if any() {
        life(0, a, &mut cx, || s.load(), c[2], c[1]);
        life(1, b, &mut cx, || s.load(), c[1], c[0]);
    } else {
        life(1, b, &mut cx, || s.load(), c[2], c[1]);
        life(0, a, &mut cx, || s.load(), c[1], c[0]);
    }
    forget(s);
});

/// Custom tracking: the handle lives in the response.
#[derive(Clone)]
struct Keep(u8);
struct Kept {
    _h: Handle,
    v: u8,
    by: u8,
}
impl TrackCompletion<Handle, u8> for Keep {
    type Output = Kept;
    fn track_completion(&self, h: Handle, v: u8) -> Kept {
        Kept { _h: h, v, by: self.0 }
    }
}
//@ proof fns="TrackCompletionFuture::poll, PendingRequests::call" note="custom completion tracking: counts until the value holding the handle is dropped"
proof!(custom, 4, {
    cx!(w, cx);
    let c = counts();
    let id: u8 = any();
    let mut s = PendingRequests::new(Svc::new(), Keep(id));
    let mut f = call(&mut s, &mut cx);
    assert!(s.load() == c[1], "a call outstanding counts");
    let r = poll(&mut f, &mut cx);
    match r {
        Poll::Pending => {
            assert!(!done(0) && s.load() == c[1], "pending: it counts");
            drop(f);
        }
        Poll::Ready(Ok(k)) => {
            assert!(g().st[0] == 2 && k.v == g().val[0] && k.by == id, "the value is handed to the tracker, with the handle");
            assert!(s.load() == c[1], "the tracked value is alive: it counts");
            drop(f);
            assert!(s.load() == c[1], "the tracked value is alive: it counts");
            drop(k);
        }
        Poll::Ready(Err(e)) => {
            assert!(g().st[0] == 3 && e.0 == g().val[0], "the error is passed through");
            assert!(s.load() == c[1], "failed: it counts until its future is dropped");
            drop(f);
        }
    }
    assert!(s.load() == c[0], "nothing is outstanding");
    forget(s);
});
