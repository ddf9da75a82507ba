//! C20 Reconnect.  Monitor in the maker, the connection future and the
//! connections; the middleware's state is (idle | connecting | connected) and
//! an optional stored error.
use crate::env::*;
use crate::{cx, proof};
use tower::reconnect::Reconnect;

const TARGET: u8 = 77;
struct Mon {
    mk_ready: bool,
    /// connection attempts started
    makes: u32,
    connecting: bool,
    /// current connection (instance), if any
    conn: Option<u8>,
    /// connect error not yet reported
    err: Option<u8>,
    /// last thing that answered Pending or an error in this poll: 1 maker, 2 attempt, 3 connection
    last: u8,
    mk_err: u8,
    mk_failed: bool,
    conn_fails: u32,
}
nd::ghost! { static M: Mon =
    Mon { mk_ready: false, makes: 0, connecting: false, conn: None, err: None, last: 0, mk_err: 0, mk_failed: false, conn_fails: 0 }; }
fn m() -> &'static mut Mon {
    unsafe { &mut *std::ptr::addr_of_mut!(M.v) }
}
struct Mk;
struct Attempt;
struct Conn(Svc);
impl Service<u8> for Mk {
    type Response = Conn;
    type Error = MyErr;
    type Future = Attempt;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), MyErr>> {
        let m = m();
        assert!(m.conn.is_none() && !m.connecting, "the maker is only used when there is no connection");
        assert!(!m.mk_failed, "C01");
        let x = answer(true, true);
        m.mk_ready = x == 1;
        m.last = 1;
        match x {
            0 => {
                register(cx);
                Poll::Pending
            }
            1 => Poll::Ready(Ok(())),
            _ => {
                m.mk_err = any();
                m.mk_failed = true;
                Poll::Ready(Err(MyErr(m.mk_err)))
            }
        }
    }
    fn call(&mut self, t: u8) -> Attempt {
        let m = m();
        assert!(m.mk_ready && m.conn.is_none() && !m.connecting, "the maker is called once, when ready");
        assert!(t == TARGET, "with the target");
        m.mk_ready = false;
        m.connecting = true;
        m.makes += 1;
        Attempt
    }
}
impl Future for Attempt {
    type Output = Result<Conn, MyErr>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let m = m();
        assert!(m.connecting, "an attempt is not polled after it completed");
        m.last = 2;
        match answer(true, true) {
            0 => {
                register(cx);
                Poll::Pending
            }
            1 => {
                m.connecting = false;
                let s = Svc::new();
                m.conn = Some(s.inst);
                Poll::Ready(Ok(Conn(s)))
            }
            _ => {
                m.connecting = false;
                let e = any();
                m.err = Some(e);
                Poll::Ready(Err(MyErr(e)))
            }
        }
    }
}
impl Service<u8> for Conn {
    type Response = u8;
    type Error = MyErr;
    type Future = Fut;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), MyErr>> {
        let m = m();
        assert!(m.conn == Some(self.0.inst), "only the current connection is used");
        m.last = 3;
        let r = self.0.poll_ready(cx);
        if let Poll::Ready(Err(_)) = r {
            m.conn = None;
            m.conn_fails += 1;
            assume(m.conn_fails <= 1);
        }
        r
    }
    fn call(&mut self, r: u8) -> Fut {
        self.0.call(r)
    }
}

type R = Reconnect<Mk, u8>;
/// One poll_ready; true if it reported ready.
fn ready(s: &mut R, cx: &mut Context<'_>) -> bool {
    let r0 = registered();
    let m = m();
    m.last = 0;
    let (e0, makes0, had) = (m.err.is_some(), m.makes, m.conn.is_some());
    let fails0 = m.conn_fails;
    let r = s.poll_ready(cx);
    match &r {
        Poll::Pending => {
            assert!(registered() > r0);
            assert!(m.last != 0, "pending only because something is");
            assert!(if m.last == 3 { m.conn.is_some() && g().last_poll == 0 } else if m.last == 2 { m.connecting } else { !m.mk_ready && !m.mk_failed });
        }
        Poll::Ready(Ok(())) => {
            if m.last == 3 {
                assert!(m.conn.is_some() && g().last_poll == 1, "ready with a ready connection");
                assert!(m.conn_fails == fails0 || m.makes > makes0, "a failed connection is replaced in the same poll");
            } else {
                cover!(m.conn_fails > fails0, "reconnect failed");
                assert!(m.last == 2 && m.err.is_some() && !m.connecting, "or with a connect error to report");
            }
        }
        Poll::Ready(Err(e)) => {
            cover!(true, "maker failed");
            assert!(m.last == 1 && m.mk_failed && is_my_err(e, m.mk_err), "only the maker's readiness error is returned");
        }
    }
    let _ = e0;
    assume(!matches!(r, Poll::Ready(Err(_))));
    let ok = r.is_ready();
    forget(r);
    ok
}
fn call(s: &mut R, cx: &mut Context<'_>) {
    let n = g().calls;
    let m = m();
    let req: u8 = any();
    let mut f = s.call(req);
    if let Some(e) = m.err.take() {
        cover!(true, "connect error reported");
        assert!(g().calls == n, "no request goes out with a connect error pending");
        let r = poll(&mut f, cx);
        assert!(matches!(&r, Poll::Ready(Err(x)) if is_my_err(x, e)), "the connect error, at once");
        forget(r);
    } else {
        cover!(true, "forwarded");
        assert!(g().calls == n + 1 && g().req[n] == req && Some(g().inst[n]) == m.conn, "forwarded once to the current connection");
        let r0 = registered();
        let r = poll(&mut f, cx);
        match &r {
            Poll::Pending => assert!(!done(n) && registered() > r0),
            Poll::Ready(r) => assert!(same_boxed(n, r), "its own result"),
        }
        forget(r);
    }
    forget(f);
}

//@ proof fns="Reconnect::new, Reconnect::poll_ready, Reconnect::call, reconnect::ResponseFuture::poll"
//@ note="from idle: poll, maybe pending, call"
proof!(first_connection, 7, {
    cx!(w, cx);
    let mut s: R = Reconnect::new(Mk, TARGET);
    let mut ok = ready(&mut s, &mut cx);
    if !ok {
        ok = ready(&mut s, &mut cx);
    }
    if ok {
        call(&mut s, &mut cx);
    }
    forget(s);
});

//@ proof fns="Reconnect::with_connection, Reconnect::poll_ready, Reconnect::call"
//@ note="from connected: the connection may fail and be replaced within a poll"
proof!(established_connection, 7, {
    cx!(w, cx);
    let s0 = Svc::new();
    m().conn = Some(s0.inst);
    let mut s: R = Reconnect::with_connection(Conn(s0), Mk, TARGET);
    if ready(&mut s, &mut cx) {
        call(&mut s, &mut cx);
    }
    forget(s);
});

//@ proof fns="Reconnect::poll_ready, Reconnect::call"
//@ note="after a failed attempt: its error is reported by one call, then the next poll tries again"
proof!(connect_error_reported_once, 7, {
    cx!(w, cx);
    let mut s: R = Reconnect::new(Mk, TARGET);
    let ok = ready(&mut s, &mut cx);
    assume(ok && m().err.is_some());
    let makes = m().makes;
    call(&mut s, &mut cx);
    if ready(&mut s, &mut cx) {
        assert!(m().makes > makes, "tries again");
        cover!(m().err.is_none(), "recovered");
        call(&mut s, &mut cx);
    }
    forget(s);
});
