//! C02 Combinators.  None has state of its own, so one request is the general
//! step; the response future is polled up to three times (every combinator
//! future has at most two phases).
use crate::env::*;
use crate::{cx, proof};
use tower::util::*;
use tower::{service_fn, ServiceExt};
use tower_layer::Layer;

/// Readiness passed through unchanged, request forwarded once (instance `i`).
fn forward<S: Service<u8, Error = MyErr>>(s: &mut S, cx: &mut Context<'_>, i: u8) -> S::Future {
    make_ready(s, cx, same_ready);
    assert!(g().last_inst == i);
    let req: u8 = any();
    let f = s.call(req);
    assert!(g().calls == 1 && g().req[0] == req && g().inst[0] == i, "forwarded once, unchanged");
    f
}
/// The response of the wrapped service, unchanged.
fn unchanged<F: Future<Output = Result<u8, MyErr>>>(mut f: F, cx: &mut Context<'_>) {
    match answer3(&mut f, cx) {
        Poll::Pending => assert!(!done(0)),
        Poll::Ready(r) => {
            cover!(r.is_ok(), "response");
            cover!(r.is_err(), "error");
            assert!(same(0, &r), "the wrapped service's own result");
        }
    }
    assert!(g().calls == 1);
    forget(f);
}

//@ proof fns="MapRequest::new, MapRequest::layer, MapRequestLayer::new, MapRequestLayer::layer, MapRequest::poll_ready, MapRequest::call, ServiceExt::map_request"
proof!(map_request, 4, {
    cx!(w, cx);
    let mut s = {
        let f = |r: u8| applied(true, r);
        match below(3) {
            0 => MapRequest::new(Svc::new(), f),
            1 => MapRequestLayer::new(f).layer(Svc::new()),
            _ => Svc::new().map_request(f),
        }
    };
    make_ready(&mut s, &mut cx, same_ready);
    assert!(fg().calls == 0);
    let req: u8 = any();
    let f = s.call(req);
    assert!(fg().calls == 1 && fg().arg == req && fg().before == 0, "applied once, to the request, before the service");
    assert!(g().calls == 1 && g().req[0] == fg().res, "the mapped request is forwarded");
    unchanged(f, &mut cx);
    assert!(fg().calls == 1);
});

//@ proof fns="MapResponse::new, MapResponseLayer::layer, MapResponse::poll_ready, MapResponse::call, MapResponseFuture::poll, ServiceExt::map_response"
proof!(map_response, 4, {
    cx!(w, cx);
    let f = |r: u8| applied(true, r);
    let mut s = match below(3) {
        0 => MapResponse::new(Svc::new(), f),
        1 => MapResponseLayer::new(f).layer(Svc::new()),
        _ => Svc::new().map_response(f),
    };
    let mut f = forward(&mut s, &mut cx, 0);
    match answer3(&mut f, &mut cx) {
        Poll::Pending => assert!(!done(0) && fg().calls == 0),
        Poll::Ready(Ok(v)) => {
            cover!(true, "ok");
            assert!(g().st[0] == 2 && fg().calls == 1 && fg().arg == g().val[0] && v == fg().res, "applied once to the response")
        }
        Poll::Ready(Err(e)) => {
            cover!(true, "err");
            assert!(g().st[0] == 3 && fg().calls == 0 && e.0 == g().val[0], "errors pass through")
        }
    }
});

//@ proof fns="MapErr::new, MapErrLayer::layer, MapErr::poll_ready, MapErr::call, MapErrFuture::poll, ServiceExt::map_err"
proof!(map_err, 4, {
    cx!(w, cx);
    let f = |e: MyErr| MyErr(applied(false, e.0));
    let mut s = match below(3) {
        0 => MapErr::new(Svc::new(), f),
        1 => MapErrLayer::new(f).layer(Svc::new()),
        _ => Svc::new().map_err(f),
    };
    // readiness: errors are mapped, the rest passes through
    let n = any::<bool>();
    if n {
        ready_once(&mut s, &mut cx, &|r| r.is_ready() == (g().last_poll != 0));
    }
    let r = s.poll_ready(&mut cx);
    match r {
        Poll::Pending => {
            assert!(g().last_poll == 0 && fg().calls == 0);
        }
        Poll::Ready(Err(e)) => {
            cover!(true, "readiness error");
            assert!(g().last_poll == 2 && fg().calls == 1 && fg().arg == g().ready_err && e.0 == fg().res, "readiness error mapped once");
        }
        Poll::Ready(Ok(())) => {
            assert!(g().last_poll == 1 && fg().calls == 0);
            let req: u8 = any();
            let mut f = s.call(req);
            assert!(g().calls == 1 && g().req[0] == req);
            match answer3(&mut f, &mut cx) {
                Poll::Pending => assert!(!done(0) && fg().calls == 0),
                Poll::Ready(Ok(v)) => assert!(g().st[0] == 2 && fg().calls == 0 && v == g().val[0]),
                Poll::Ready(Err(e)) => {
                    cover!(true, "response error");
                    assert!(g().st[0] == 3 && fg().calls == 1 && fg().arg == g().val[0] && e.0 == fg().res)
                }
            }
        }
    }
});

fn split(r: Result<u8, MyErr>) -> (bool, u8) {
    match r {
        Ok(v) => (true, v),
        Err(e) => (false, e.0),
    }
}

//@ proof fns="MapResult::new, MapResultLayer::layer, MapResult::poll_ready, MapResult::call, MapResultFuture::poll, ServiceExt::map_result"
proof!(map_result, 4, {
    cx!(w, cx);
    let f = |r: Result<u8, MyErr>| {
        let (ok, v) = split(r);
        applied_res(ok, v)
    };
    let mut s = match below(3) {
        0 => MapResult::new(Svc::new(), f),
        1 => MapResultLayer::new(f).layer(Svc::new()),
        _ => Svc::new().map_result(f),
    };
    let mut f = forward(&mut s, &mut cx, 0);
    match answer3(&mut f, &mut cx) {
        Poll::Pending => assert!(!done(0) && fg().calls == 0),
        Poll::Ready(r) => {
            let (ok, v) = split(r);
            cover!(ok && !fg().ok, "error turned into a response");
            assert!(done(0) && fg().calls == 1 && fg().arg == g().val[0] && fg().ok == (g().st[0] == 2), "applied once to the result");
            assert!(ok == fg().res_ok && v == fg().res);
        }
    }
});

//@ proof fns="Then::new, ThenLayer::layer, Then::poll_ready, Then::call, ThenFuture::poll, ServiceExt::then"
proof!(then, 4, {
    cx!(w, cx);
    let f = |r: Result<u8, MyErr>| {
        let (ok, v) = split(r);
        applied_fut(ok, v)
    };
    let mut s = match below(3) {
        0 => Then::new(Svc::new(), f),
        1 => ThenLayer::new(f).layer(Svc::new()),
        _ => Svc::new().then(f),
    };
    let mut f = forward(&mut s, &mut cx, 0);
    let r = answer3(&mut f, &mut cx);
    assert!(fg().calls == done(0) as u32, "applied exactly when the response is there");
    if done(0) {
        assert!(fg().arg == g().val[0] && fg().ok == (g().st[0] == 2) && fg().t == 1 && g().calls == 2);
    }
    match r {
        Poll::Pending => assert!(!done(0) || !done(1)),
        Poll::Ready(r) => {
            cover!(g().st[0] == 3 && r.is_ok(), "recovered");
            assert!(done(0) && same(1, &r), "the future's own result")
        }
    }
});

//@ proof fns="AndThen::new, AndThenLayer::layer, AndThen::poll_ready, AndThen::call, AndThenFuture::poll, ServiceExt::and_then"
proof!(and_then, 4, {
    cx!(w, cx);
    let f = |r: u8| applied_fut(true, r);
    let mut s = match below(3) {
        0 => AndThen::new(Svc::new(), f),
        1 => AndThenLayer::new(f).layer(Svc::new()),
        _ => Svc::new().and_then(f),
    };
    let mut f = forward(&mut s, &mut cx, 0);
    let r = answer3(&mut f, &mut cx);
    assert!(fg().calls == (g().st[0] == 2) as u32, "applied exactly to a successful response");
    if g().st[0] == 2 {
        assert!(fg().arg == g().val[0] && fg().t == 1 && g().calls == 2);
    } else {
        assert!(g().calls == 1);
    }
    match r {
        Poll::Pending => assert!(!done(0) || (g().st[0] == 2 && !done(1))),
        Poll::Ready(r) => {
            if g().st[0] == 3 {
                cover!(true, "error short-circuits");
                assert!(same(0, &r));
            } else {
                cover!(true, "second future");
                assert!(same(1, &r));
            }
        }
    }
});

//@ proof fns="MapFuture::new, MapFutureLayer::layer, MapFuture::poll_ready, MapFuture::call, ServiceExt::map_future"
proof!(map_future, 4, {
    cx!(w, cx);
    struct Wrap(Fut);
    impl Future for Wrap {
        type Output = Result<u8, MyErr>;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            Pin::new(&mut self.0).poll(cx)
        }
    }
    let f = |f: Fut| {
        applied(true, f.t as u8);
        Wrap(f)
    };
    let mut s = match below(3) {
        0 => MapFuture::new(Svc::new(), f),
        1 => MapFutureLayer::new(f).layer(Svc::new()),
        _ => Svc::new().map_future(f),
    };
    let f = forward(&mut s, &mut cx, 0);
    assert!(fg().calls == 1 && fg().arg == 0, "applied once to the response future");
    unchanged(f, &mut cx);
    assert!(fg().calls == 1);
});

//@ proof fns="Either::poll_ready, Either::call, EitherResponseFuture::poll, Either::layer"
proof!(either, 4, {
    cx!(w, cx);
    let left: bool = any();
    let mut s: Either<Svc, Svc> = if left { Either::Left(Svc::new()) } else { Either::Right(Svc::new()) };
    let f = forward(&mut s, &mut cx, 0);
    unchanged(f, &mut cx);
    assert!(matches!(s, Either::Left(_)) == left);
    forget(s);
});

//@ proof fns="Optional::new, Optional::poll_ready, Optional::call, optional::ResponseFuture::poll"
proof!(optional, 4, {
    cx!(w, cx);
    let some: bool = any();
    let inner = if some { Some(Svc::new()) } else { None };
    let mut s = Optional::new::<u8>(inner);
    let req: u8 = any();
    if some {
        make_ready(&mut s, &mut cx, same_ready_boxed);
        let mut f = s.call(req);
        assert!(g().calls == 1 && g().req[0] == req);
        let r = answer3(&mut f, &mut cx);
        match &r {
            Poll::Pending => assert!(!done(0)),
            Poll::Ready(r) => assert!(same_boxed(0, r)),
        }
        forget(r);
    } else {
        let r = s.poll_ready(&mut cx);
        assert!(matches!(r, Poll::Ready(Ok(()))));
        forget(r);
        let mut f = s.call(req);
        let r = poll(&mut f, &mut cx);
        assert!(matches!(&r, Poll::Ready(Err(e)) if e.is::<tower::util::error::optional::None>()));
        forget(r);
        assert!(g().calls == 0);
    }
});

//@ proof fns="BoxService::new, BoxService::layer, BoxService::poll_ready, BoxService::call, ServiceExt::boxed"
proof!(box_service, 4, {
    cx!(w, cx);
    let mut s: BoxService<u8, u8, MyErr> = match below(3) {
        0 => BoxService::new(Svc::new()),
        1 => BoxService::layer().layer(Svc::new()),
        _ => Svc::new().boxed(),
    };
    let f = forward(&mut s, &mut cx, 0);
    unchanged(f, &mut cx);
    forget(s);
});

//@ proof fns="UnsyncBoxService::new, UnsyncBoxService::layer, UnsyncBoxService::poll_ready, UnsyncBoxService::call"
proof!(unsync_box_service, 4, {
    cx!(w, cx);
    let mut s: UnsyncBoxService<u8, u8, MyErr> =
        if any() { UnsyncBoxService::new(Svc::new()) } else { UnsyncBoxService::layer().layer(Svc::new()) };
    let f = forward(&mut s, &mut cx, 0);
    unchanged(f, &mut cx);
    forget(s);
});

//@ proof fns="BoxCloneService::new, BoxCloneService::layer, BoxCloneService::poll_ready, BoxCloneService::call, BoxCloneService::clone, ServiceExt::boxed_clone"
proof!(box_clone_service, 4, {
    cx!(w, cx);
    let mut s: BoxCloneService<u8, u8, MyErr> = match below(3) {
        0 => BoxCloneService::new(Svc::new()),
        1 => BoxCloneService::layer().layer(Svc::new()),
        _ => Svc::new().boxed_clone(),
    };
    if any() {
        let mut c = s.clone();
        let f = forward(&mut c, &mut cx, 1);
        unchanged(f, &mut cx);
        forget(c);
    } else {
        let f = forward(&mut s, &mut cx, 0);
        unchanged(f, &mut cx);
    }
    forget(s);
});

//@ proof fns="BoxCloneSyncService::new, BoxCloneSyncService::layer, BoxCloneSyncService::poll_ready, BoxCloneSyncService::call, BoxCloneSyncService::clone"
proof!(box_clone_sync_service, 4, {
    cx!(w, cx);
    let mut s: BoxCloneSyncService<u8, u8, MyErr> =
        if any() { BoxCloneSyncService::new(Svc::new()) } else { BoxCloneSyncService::layer().layer(Svc::new()) };
    if any() {
        let mut c = s.clone();
        let f = forward(&mut c, &mut cx, 1);
        unchanged(f, &mut cx);
        forget(c);
    } else {
        let f = forward(&mut s, &mut cx, 0);
        unchanged(f, &mut cx);
    }
    forget(s);
});

//@ proof fns="service_fn, ServiceFn::poll_ready, ServiceFn::call"
proof!(service_function, 4, {
    cx!(w, cx);
    let mut s = service_fn(|r: u8| {
        fg().calls += 1;
        fg().arg = r;
        Fut::new(r, 7)
    });
    if any() {
        let r = s.poll_ready(&mut cx);
        assert!(matches!(r, Poll::Ready(Ok(()))), "always ready");
    }
    assert!(fg().calls == 0);
    let req: u8 = any();
    let f = s.call(req);
    assert!(fg().calls == 1 && fg().arg == req);
    unchanged(f, &mut cx);
    assert!(fg().calls == 1);
});

//@ proof fns="<&mut S as Service>::poll_ready, <&mut S as Service>::call, <Box<S> as Service>::poll_ready, <Box<S> as Service>::call"
proof!(references_and_boxes, 4, {
    cx!(w, cx);
    let mut s = Svc::new();
    match below(3) {
        0 => {
            let mut r = &mut s;
            let f = forward(&mut r, &mut cx, 0);
            unchanged(f, &mut cx);
        }
        1 => {
            let mut r = Box::new(s);
            let f = forward(&mut r, &mut cx, 0);
            unchanged(f, &mut cx);
            forget(r);
        }
        _ => {
            let mut r: Box<dyn Service<u8, Response = u8, Error = MyErr, Future = Fut>> = Box::new(s);
            let f = forward(&mut r, &mut cx, 0);
            unchanged(f, &mut cx);
            forget(r);
        }
    }
});
