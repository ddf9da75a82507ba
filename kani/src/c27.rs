//! C27 service factories.
use crate::env::*;
use crate::{cx, proof};
use std::convert::Infallible;
use tower::make::{MakeConnection, MakeService, Shared};
use tower::util::{future_service, FutureService};

/// The result is what the future of call `t` made.
fn same_made(t: usize, r: &Result<Made, MyErr>) -> bool {
    match r {
        Ok(m) => g().st[t] == 2 && g().val[t] == m.v,
        Err(e) => g().st[t] == 3 && g().val[t] == e.0,
    }
}
/// A factory adapter forwards readiness, target and result.
fn forwards<M: Service<u8, Response = Made, Error = MyErr>>(mut m: M, cx: &mut Context<'_>) {
    make_ready(&mut m, cx, |_| true);
    let t: u8 = any();
    let mut f = m.call(t);
    assert!(g().calls == 1 && g().req[0] == t, "the target reaches the factory once");
    let r = answer3(&mut f, cx);
    match &r {
        Poll::Pending => assert!(!done(0), "pending while the factory is"),
        Poll::Ready(r) => assert!(same_made(0, r), "what the factory made, or its error"),
    }
    forget((m, f, r));
}
/// `make_ready` for a factory (its response is not a u8).
fn make_ready<M: Service<u8, Error = MyErr>>(m: &mut M, cx: &mut Context<'_>, _: impl Fn(&u8) -> bool) {
    let mut n = 0;
    while n < 2 {
        let (p0, r0) = (g().polls, registered());
        let r = m.poll_ready(cx);
        assert!(g().polls == p0 + 1 && same_ready(&r), "the factory's own readiness");
        match r {
            Poll::Pending => assert!(registered() > r0, "pending: the task is registered"),
            Poll::Ready(Ok(())) => return,
            Poll::Ready(Err(_)) => break,
        }
        n += 1;
    }
    assume(false);
}
//@ proof fns="MakeService::into_service, IntoService::poll_ready, IntoService::call"
proof!(into_service, 4, {
    cx!(w, cx);
    forwards(MakeService::<u8, u8>::into_service(Mk::new()), &mut cx);
});
//@ proof fns="MakeService::as_service, AsService::poll_ready, AsService::call"
proof!(as_service, 4, {
    cx!(w, cx);
    let mut m = Mk::new();
    forwards(MakeService::<u8, u8>::as_service(&mut m), &mut cx);
    forget(m);
});
/// The MakeService view of a factory, as a service.
struct View(Mk);
impl Service<u8> for View {
    type Response = Made;
    type Error = MyErr;
    type Future = MkFut;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), MyErr>> {
        MakeService::<u8, u8>::poll_ready(&mut self.0, cx)
    }
    fn call(&mut self, t: u8) -> MkFut {
        MakeService::<u8, u8>::make_service(&mut self.0, t)
    }
}
//@ proof fns="<M as MakeService>::poll_ready, <M as MakeService>::make_service"
proof!(make_service, 4, {
    cx!(w, cx);
    forwards(View(Mk::new()), &mut cx);
});

/// A service that can be told apart and copied.
#[derive(Clone, Copy, PartialEq, Eq)]
struct Id(u8);
//@ proof fns="Shared::new, Shared::poll_ready, Shared::call, SharedFuture::poll" note="two factories made by cloning, two calls"
proof!(shared, 4, {
    cx!(w, cx);
    let id: u8 = any();
    let mut s = Shared::new(Id(id));
    if any() {
        s = s.clone();
    }
    let mut n = 0;
    while n < 2 {
        let target: u8 = any();
        let r: Poll<Result<(), Infallible>> = Service::<u8>::poll_ready(&mut s, &mut cx);
        assert!(matches!(r, Poll::Ready(Ok(()))), "always ready");
        let mut f = s.call(target);
        match poll(&mut f, &mut cx) {
            Poll::Ready(Ok(x)) => assert!(x == Id(id), "a clone of the given service"),
            _ => assert!(false, "at once"),
        }
        n += 1;
    }
});

//@ proof fns="FutureService::poll_ready, FutureService::call, future_service" note="any answers of the future and of the service it makes, up to four readiness polls"
proof!(future_service_, 6, {
    cx!(w, cx);
    let fut = MkFut(Fut::new(0, 100));
    let mut s = if any() { future_service::<_, Made, u8, MyErr>(fut) } else { FutureService::new(fut) };
    let mut n = 0;
    while n < 3 {
        let (p0, r0) = (g().polls, registered());
        let before = g().st[0];
        let r = s.poll_ready(&mut cx);
        match g().st[0] {
            2 => {
                // built: readiness is the service's
                assert!(g().polls == p0 + 1 && same_ready(&r), "after the future completed, the service's own readiness");
            }
            3 => assert!(matches!(&r, Poll::Ready(Err(e)) if e.0 == g().val[0]) && g().polls == 0, "the future's error"),
            _ => assert!(before == 1 && r.is_pending() && g().polls == 0, "not ready until the future completed"),
        }
        match r {
            Poll::Pending => assert!(registered() > r0, "pending: the task is registered"),
            Poll::Ready(Ok(())) => break,
            Poll::Ready(Err(_)) => assume(false),
        }
        n += 1;
    }
    assume(n < 3);
    let req: u8 = any();
    let mut f = s.call(req);
    assert!(g().calls == 2 && g().req[1] == req && g().inst[1] == g().last_inst, "the request goes to the service made");
    let r = poll(&mut f, &mut cx);
    match &r {
        Poll::Pending => assert!(!done(1), "pending while it is"),
        Poll::Ready(r) => assert!(same(1, r), "its result comes back"),
    }
    forget((s, f, r));
});

/// A connection.
struct Io(u8);
impl tokio::io::AsyncRead for Io {
    fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, _: &mut tokio::io::ReadBuf<'_>) -> Poll<std::io::Result<()>> {
        Poll::Pending
    }
}
impl tokio::io::AsyncWrite for Io {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, _: &[u8]) -> Poll<Result<usize, std::io::Error>> {
        Poll::Pending
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), std::io::Error>> {
        Poll::Pending
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), std::io::Error>> {
        Poll::Pending
    }
}
/// A connector, and its MakeConnection view as a service making Io.
struct Connector(Svc);
struct IoFut(Fut);
impl Future for IoFut {
    type Output = Result<Io, MyErr>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        poll(&mut self.0, cx).map_ok(Io)
    }
}
impl Service<u8> for Connector {
    type Response = Io;
    type Error = MyErr;
    type Future = IoFut;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), MyErr>> {
        self.0.poll_ready(cx)
    }
    fn call(&mut self, t: u8) -> IoFut {
        IoFut(self.0.call(t))
    }
}
struct ConnView(Connector);
impl Service<u8> for ConnView {
    type Response = Io;
    type Error = MyErr;
    type Future = IoFut;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), MyErr>> {
        MakeConnection::poll_ready(&mut self.0, cx)
    }
    fn call(&mut self, t: u8) -> IoFut {
        MakeConnection::make_connection(&mut self.0, t)
    }
}
//@ proof fns="<C as MakeConnection>::poll_ready, <C as MakeConnection>::make_connection"
proof!(make_connection, 4, {
    cx!(w, cx);
    let mut m = ConnView(Connector(Svc::new()));
    make_ready(&mut m, &mut cx, |_| true);
    let t: u8 = any();
    let mut f = m.call(t);
    assert!(g().calls == 1 && g().req[0] == t, "the target reaches the connector once");
    match answer3(&mut f, &mut cx) {
        Poll::Pending => assert!(!done(0), "pending while the connector is"),
        Poll::Ready(Ok(io)) => assert!(g().st[0] == 2 && io.0 == g().val[0], "the connection made"),
        Poll::Ready(Err(e)) => assert!(g().st[0] == 3 && e.0 == g().val[0], "or its error"),
    }
    forget((m, f));
});
