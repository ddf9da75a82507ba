//! C05 Timeout.
use crate::env::*;
use crate::{cx, proof};
use tower::timeout::{error::Elapsed, Timeout, TimeoutLayer};
use tower_layer::Layer;

fn service(t: Duration) -> Timeout<Svc> {
    if any() {
        Timeout::new(Svc::new(), t)
    } else {
        TimeoutLayer::new(t).layer(Svc::new())
    }
}

//@ proof fns="Timeout::new, TimeoutLayer::layer, Timeout::poll_ready, Timeout::call, timeout::ResponseFuture::poll"
//@ note="any start time, duration and poll times below 2^40 s; two polls at any two later times (a Pending poll changes no state of the middleware, so this is the general step)"
proof!(response_or_elapsed, 4, {
    cx!(w, cx);
    let start = duration_below(40);
    clock::set(start);
    let t = duration_below(41);
    let mut s = service(t);
    g().rdy_err = false;
    g().rdy_pend = false;
    let r = s.poll_ready(&mut cx);
    assert!(matches!(r, Poll::Ready(Ok(()))));
    forget(r);
    let req: u8 = any();
    let mut f = s.call(req);
    assert!(g().calls == 1 && g().req[0] == req, "the request is forwarded once, unchanged");
    // first poll at any time before it is due, answered Pending
    let e1 = duration_below(40);
    clock::set(start + e1);
    let first: bool = any();
    if first {
        assume(e1 < t);
        let r0 = registered();
        let r = poll(&mut f, &mut cx);
        assume(r.is_pending());
        assert!(registered() >= r0 + 2);
        forget(r);
    }
    let e2 = duration_below(40);
    assume(e2 >= e1);
    clock::set(start + e2);
    let due = e2 >= t;
    let r0 = registered();
    let r = poll(&mut f, &mut cx);
    match &r {
        Poll::Pending => {
            cover!(true, "pending");
            assert!(!due, "not Pending once the timer is due");
            assert!(!done(0));
            assert!(registered() == r0 + 2, "task registered with response and timer");
        }
        Poll::Ready(Ok(_)) => {
            cover!(due, "response at or after the deadline still wins");
            assert!(matches!(&r, Poll::Ready(x) if same_boxed(0, x)), "the service's own result");
        }
        Poll::Ready(Err(e)) => {
            if done(0) {
                cover!(due, "error response after the deadline");
                assert!(g().st[0] == 3 && is_my_err(e, g().val[0]), "the service's own error");
            } else {
                cover!(true, "elapsed");
                assert!(due, "Elapsed only at or after the deadline");
                assert!(e.is::<Elapsed>());
            }
        }
    }
    forget(r);
});

//@ proof fns="Timeout::poll_ready"
proof!(readiness_passes_through, 4, {
    cx!(w, cx);
    let mut s = service(duration());
    let p: bool = any();
    if p {
        let r = s.poll_ready(&mut cx);
        assume(!matches!(r, Poll::Ready(Err(_))));
        forget(r);
    }
    let r = s.poll_ready(&mut cx);
    assert!(same_ready_boxed(&r));
    cover!(matches!(r, Poll::Ready(Err(_))), "error");
    cover!(r.is_pending(), "pending");
    assert!(g().calls == 0);
    forget(r);
});
