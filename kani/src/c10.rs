//! C10 Retry.  The policy and the service are arbitrary and carry a monitor
//! of the protocol; after a retry the response future is back in the state it
//! had after the first attempt (one attempt outstanding, an arbitrary saved
//! clone), so the attempts explored cover every later one.
use crate::env::*;
use crate::{cx, proof};
use tower::retry::{Policy, Retry, RetryLayer};
use tower_layer::Layer;

#[derive(Clone, Copy, PartialEq)]
enum Ph {
    Start,
    /// attempt `att` is outstanding
    Called,
    /// the policy asked for a retry; its future is pending
    Waiting,
    /// its future completed
    Waited,
    /// the policy wants no retry
    Stop,
}
struct Mon {
    ph: Ph,
    att: usize,
    max: usize,
    /// the clone saved before the current attempt
    saved: Option<u8>,
    /// what the current/next attempt must carry
    expect: u8,
    fin_ok: bool,
    fin: u8,
}
nd::ghost! { static M: Mon = Mon { ph: Ph::Start, att: 0, max: 2, saved: None, expect: 0, fin_ok: false, fin: 0 }; }
fn m() -> &'static mut Mon {
    unsafe { &mut *std::ptr::addr_of_mut!(M.v) }
}

#[derive(Clone)]
struct P;
struct Wait;
impl Future for Wait {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        assert!(m().ph == Ph::Waiting, "the policy's future is not polled again after it completed");
        if any() {
            register(cx);
            return Poll::Pending;
        }
        m().ph = Ph::Waited;
        Poll::Ready(())
    }
}
impl Policy<u8, u8, MyErr> for P {
    type Future = Wait;
    fn retry(&mut self, req: &mut u8, result: &mut Result<u8, MyErr>) -> Option<Wait> {
        let m = m();
        assert!(m.ph == Ph::Called && same(m.att, result), "the policy sees each attempt's own result once");
        assert!(m.saved == Some(*req), "together with the saved clone");
        if any() {
            *req = any();
            m.saved = Some(*req);
        }
        if any() {
            *result = if any() { Ok(any()) } else { Err(MyErr(any())) };
        }
        match result {
            Ok(v) => {
                m.fin_ok = true;
                m.fin = *v
            }
            Err(e) => {
                m.fin_ok = false;
                m.fin = e.0
            }
        }
        if any() {
            assume(m.att < m.max);
            m.ph = Ph::Waiting;
            Some(Wait)
        } else {
            m.ph = Ph::Stop;
            None
        }
    }
    fn clone_request(&mut self, req: &u8) -> Option<u8> {
        let m = m();
        match m.ph {
            Ph::Start => m.ph = Ph::Called,
            Ph::Waited => {
                assert!(m.saved == Some(*req), "the retry carries the saved clone");
                m.ph = Ph::Called;
                m.att += 1;
            }
            _ => assert!(false, "a request is cloned once per attempt, before it"),
        }
        m.expect = *req;
        m.saved = if any() { Some(any()) } else { None };
        m.saved
    }
}
/// The wrapped service: checks order and content of the attempts.
struct S(Svc);
impl Clone for S {
    fn clone(&self) -> S {
        S(self.0.clone())
    }
}
impl Service<u8> for S {
    type Response = u8;
    type Error = MyErr;
    type Future = Fut;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), MyErr>> {
        assert!(m().ph == Ph::Start || m().ph == Ph::Waited, "readiness is awaited only before an attempt");
        self.0.poll_ready(cx)
    }
    fn call(&mut self, r: u8) -> Fut {
        assert!(m().ph == Ph::Called && g().calls == m().att, "one call per attempt");
        assert!(r == m().expect, "first the original request, then the saved clone");
        self.0.call(r)
    }
}

/// One poll of the response future; true if it is still pending.
fn step<F: Future<Output = Result<u8, MyErr>>>(f: &mut F, cx: &mut Context<'_>) -> bool {
    let r0 = registered();
    let m = m();
    match poll(f, cx) {
        Poll::Pending => {
            assert!(registered() > r0, "pending: registered");
            match m.ph {
                Ph::Called => assert!(!done(m.att), "pending while the attempt is"),
                Ph::Waiting => {}
                Ph::Waited => assert!(g().last_poll == 0),
                _ => assert!(false, "not pending after the policy's decision to stop"),
            }
            true
        }
        Poll::Ready(r) => {
            match m.ph {
                Ph::Called => {
                    cover!(m.att == 1, "retry could not be cloned");
                    assert!(m.saved.is_none() && same(m.att, &r), "uncloneable: the attempt's own result")
                }
                Ph::Stop => {
                    cover!(m.att == 1, "stopped after a retry");
                    assert!(match &r {
                        Ok(v) => m.fin_ok && *v == m.fin,
                        Err(e) => !m.fin_ok && e.0 == m.fin,
                    }, "the last result as the policy left it")
                }
                Ph::Waited => {
                    cover!(true, "readiness failure before a retry");
                    assert!(g().last_poll == 2 && r == Err(MyErr(g().ready_err)))
                }
                _ => assert!(false, "no result while the policy is waiting"),
            }
            false
        }
    }
}

fn start(cx: &mut Context<'_>) -> tower::retry::future::ResponseFuture<P, S, u8> {
    let mut s = if any() { Retry::new(P, S(Svc::new())) } else { RetryLayer::new(P).layer(S(Svc::new())) };
    let r = s.poll_ready(cx);
    assert!(same_ready(&r), "readiness passes through");
    assume(matches!(r, Poll::Ready(Ok(()))));
    let req: u8 = any();
    let f = s.call(req);
    assert!(g().calls == 1 && g().req[0] == req && g().inst[0] == 0, "the original request first");
    assert!(m().ph == Ph::Called && m().expect == req, "cloned before the attempt");
    forget(s);
    f
}

//@ proof fns="Retry::new, RetryLayer::layer, Retry::poll_ready, Retry::call, retry::ResponseFuture::new, retry::ResponseFuture::poll"
//@ note="one poll of the first attempt, running through up to one complete retry"
proof!(first_attempt_and_retry_in_one_poll, 4, {
    cx!(w, cx);
    m().max = 1;
    let mut f = start(&mut cx);
    step(&mut f, &mut cx);
    forget(f);
});

//@ proof fns="retry::ResponseFuture::poll"
//@ note="every state the future can be pending in (attempt, policy future, readiness), then one more poll"
proof!(resume_from_every_state, 4, {
    cx!(w, cx);
    m().max = 1;
    let mut f = start(&mut cx);
    if step(&mut f, &mut cx) {
        cover!(m().ph == Ph::Waiting, "policy pending");
        cover!(m().ph == Ph::Waited, "service pending");
        cover!(m().att == 1, "retry pending");
        step(&mut f, &mut cx);
    }
    forget(f);
});
