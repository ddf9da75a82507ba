//! C06 Load shedding.
use crate::env::*;
use crate::{cx, proof};
use tower::load_shed::{error::Overloaded, LoadShed, LoadShedLayer};
use tower_layer::Layer;

fn service() -> LoadShed<Svc> {
    if any() {
        LoadShed::new(Svc::new())
    } else {
        LoadShedLayer::new().layer(Svc::new())
    }
}

/// One arbitrary step; `ready` tracks "the wrapped service reported ready at the
/// last poll and was not called since".
fn step(s: &mut LoadShed<Svc>, ready: &mut bool, cx: &mut Context<'_>) {
    if any() {
        let p0 = g().polls;
        let r = s.poll_ready(cx);
        assert!(g().polls == p0 + 1, "every readiness poll asks the wrapped service");
        match &r {
            Poll::Pending => assert!(false, "load shed never answers Pending"),
            Poll::Ready(Ok(())) => assert!(g().last_poll != 2),
            Poll::Ready(Err(e)) => {
                assert!(g().last_poll == 2 && is_my_err(e, g().ready_err));
                assume(false) // the service has failed: the caller discards it
            }
        }
        *ready = g().last_poll == 1;
        forget(r);
    } else {
        let n = g().calls;
        let req: u8 = any();
        let mut f = s.call(req);
        if *ready {
            cover!(true, "forwarded");
            assert!(g().calls == n + 1 && g().req[n] == req, "forwarded once, unchanged");
        } else {
            assert!(g().calls == n, "a shed request never reaches the service");
        }
        if any() {
            let r = poll(&mut f, cx);
            match &r {
                Poll::Pending => assert!(*ready && !done(n), "an overload error is immediate"),
                Poll::Ready(r) => {
                    if *ready {
                        assert!(same_boxed(n, r));
                    } else {
                        cover!(true, "shed");
                        assert!(matches!(r, Err(e) if e.is::<Overloaded>()));
                    }
                }
            }
            forget(r);
        }
        forget(f);
        *ready = false;
    }
}

//@ proof fns="LoadShed::new, LoadShedLayer::layer, LoadShed::poll_ready, LoadShed::call, LoadShed::clone, load_shed::ResponseFuture::poll"
//@ note="the private state is one flag; the symbolic prefix reaches both of its values, so the last step is the general inductive step"
proof!(sheds_exactly_when_not_ready, 4, {
    cx!(w, cx);
    let mut s = service();
    let mut ready = false;
    step(&mut s, &mut ready, &mut cx);
    step(&mut s, &mut ready, &mut cx);
    if any() {
        let mut c = s.clone();
        let mut rc = false;
        cover!(ready, "clone of a ready service");
        step(&mut c, &mut rc, &mut cx);
        forget(c);
    }
    step(&mut s, &mut ready, &mut cx);
    forget(s);
});

//@ proof fns="LoadShed::poll_ready"
proof!(readiness_error, 4, {
    cx!(w, cx);
    let mut s = service();
    let r = s.poll_ready(&mut cx);
    match &r {
        Poll::Ready(Err(e)) => {
            cover!(true, "error");
            assert!(g().last_poll == 2 && is_my_err(e, g().ready_err));
        }
        Poll::Ready(Ok(())) => assert!(g().last_poll != 2),
        Poll::Pending => assert!(false),
    }
    forget(r);
});
