//! C23 Filters.  A filter has no state of its own; one request is the general step.
use crate::env::*;
use crate::{cx, proof};
use tower::filter::{AsyncFilter, AsyncFilterLayer, AsyncPredicate, Filter, FilterLayer, Predicate};
use tower::{BoxError, ServiceExt};
use tower_layer::Layer;

/// An arbitrary predicate, recording what it was asked and answered.
#[derive(Clone)]
struct P;
impl Predicate<u8> for P {
    type Request = u8;
    fn check(&mut self, r: u8) -> Result<u8, BoxError> {
        applied_res(true, r).map_err(Into::into)
    }
}
impl AsyncPredicate<u8> for P {
    type Request = u8;
    type Future = Check;
    fn check(&mut self, r: u8) -> Check {
        Check { f: applied_fut(true, r) }
    }
}
/// The predicate's future: an arbitrary future whose Ok value is the request.
struct Check {
    f: Fut,
}
impl Future for Check {
    type Output = Result<u8, BoxError>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        match Pin::new(&mut self.f).poll(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(r) => Poll::Ready(r.map_err(Into::into)),
        }
    }
}

//@ proof fns="Filter::new, FilterLayer::new, FilterLayer::layer, Filter::layer, Filter::poll_ready, Filter::call, filter::ResponseFuture::poll, ServiceExt::filter"
proof!(filter, 4, {
    cx!(w, cx);
    let mut s = match below(4) {
        0 => Filter::new(Svc::new(), P),
        1 => FilterLayer::new(P).layer(Svc::new()),
        2 => Filter::<Svc, P>::layer(P).layer(Svc::new()),
        _ => Svc::new().filter::<P, u8>(P),
    };
    make_ready(&mut s, &mut cx, same_ready_boxed);
    assert!(fg().calls == 0);
    let req: u8 = any();
    let mut f = s.call(req);
    assert!(fg().calls == 1 && fg().arg == req && fg().before == 0, "the predicate sees the request once, first");
    if fg().res_ok {
        assert!(g().calls == 1 && g().req[0] == fg().res, "accepted: forwarded once, as the predicate returned it");
        let r = answer3(&mut f, &mut cx);
        match &r {
            Poll::Pending => assert!(!done(0)),
            Poll::Ready(r) => {
                cover!(r.is_ok(), "response");
                assert!(same_boxed(0, r), "the service's own result")
            }
        }
        forget(r);
    } else {
        let r = poll(&mut f, &mut cx);
        cover!(true, "rejected");
        assert!(matches!(&r, Poll::Ready(Err(e)) if is_my_err(e, fg().res)), "rejected: the predicate's error");
        assert!(g().calls == 0, "a rejected request never reaches the service");
        forget(r);
    }
    forget(f);
});

//@ proof fns="Filter::check, <F as Predicate>::check"
proof!(closure_predicate, 4, {
    let f = |r: u8| applied_res(true, r);
    let mut s = Filter::new(Svc::new(), f);
    let req: u8 = any();
    let r = s.check(req);
    assert!(fg().calls == 1 && fg().arg == req);
    match &r {
        Ok(v) => assert!(fg().res_ok && *v == fg().res),
        Err(e) => assert!(!fg().res_ok && is_my_err(e, fg().res)),
    }
    forget(r);
    assert!(g().calls == 0 && g().polls == 0);
});

//@ proof fns="AsyncFilter::new, AsyncFilterLayer::new, AsyncFilterLayer::layer, AsyncFilter::poll_ready, AsyncFilter::call, AsyncResponseFuture::poll, ServiceExt::filter_async"
//@ note="three polls of the response future: it has two phases"
proof!(async_filter, 4, {
    cx!(w, cx);
    let mut s = match below(3) {
        0 => AsyncFilter::new(Svc::new(), P),
        1 => AsyncFilterLayer::new(P).layer(Svc::new()),
        _ => Svc::new().filter_async::<P, u8>(P),
    };
    make_ready(&mut s, &mut cx, same_ready_boxed);
    let req: u8 = any();
    let mut f = s.call(req);
    assert!(fg().calls == 1 && fg().arg == req);
    // ticket 0 is the predicate's future
    assert!(g().calls == 1, "the service is not called before the predicate decided");
    let r = answer3(&mut f, &mut cx);
    assert!((g().calls == 2) == (g().st[0] == 2) && g().calls <= 2, "called exactly when accepted, once");
    if g().calls == 2 {
        assert!(g().req[1] == g().val[0], "with the request the predicate returned");
        assert!(g().inst[1] == 0, "on the instance that was reported ready");
    }
    match &r {
        Poll::Pending => assert!(!done(0) || (g().st[0] == 2 && !done(1))),
        Poll::Ready(r) => {
            if g().st[0] == 2 {
                cover!(true, "accepted");
                assert!(same_boxed(1, r));
            } else {
                cover!(true, "rejected");
                assert!(same_boxed(0, r));
            }
        }
    }
    forget(r);
    // what stays behind is a clone that is not ready (C01 in its call)
    forget(f);
    forget(s);
});

//@ proof fns="AsyncFilter::call, <F as AsyncPredicate>::check"
proof!(async_filter_keeps_a_fresh_clone, 4, {
    cx!(w, cx);
    quiet(false, false, false, false);
    let mut s = AsyncFilter::new(Svc::new(), |r: u8| applied_fut(true, r));
    assert!(s.poll_ready(&mut cx).is_ready());
    let req: u8 = any();
    let mut f = s.call(req);
    assert!(s.get_ref().inst == 1 && s.get_ref().ready == 0);
    let r = poll(&mut f, &mut cx);
    assert!(matches!(&r, Poll::Ready(r) if same_boxed(1, r)));
    assert!(g().req[1] == g().val[0]);
    forget((r, s, f));
});
