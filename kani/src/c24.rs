//! C24 call_all.  Monitor in the request stream and the service.
//! kind: other
use crate::env::*;
use crate::{cx, proof};
use futures_core::Stream;
use tower::util::{CallAll, CallAllUnordered};
use tower::ServiceExt;

struct Mon {
    items: usize,
    item: [u8; 3],
    ended: bool,
    max: usize,
    /// results yielded by ticket
    yielded: [bool; 3],
    n: usize,
    ready_err: bool,
    /// 255, or the stream's answer
    force: u8,
    /// items before `force` turns into `after`
    script: u8,
    after: u8,
    polls: u32,
    last: u8,
}
nd::ghost! { static M: Mon = Mon { items: 0, item: [0; 3], ended: false, max: 2, yielded: [false; 3], n: 0, ready_err: false, force: 255, script: 255, after: 0, polls: 0, last: 0 }; }
fn m() -> &'static mut Mon {
    unsafe { &mut *std::ptr::addr_of_mut!(M.v) }
}
/// An arbitrary stream of requests.
struct Reqs;
impl Stream for Reqs {
    type Item = u8;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<u8>> {
        let m = m();
        assert!(!m.ended, "the stream is not polled after its end");
        assert!(!m.ready_err, "nor after the service failed");
        assert!(m.items == g().calls, "one request at a time is taken from the stream");
        let x = if m.force != 255 { m.force as usize } else { below(3) };
        m.polls += 1;
        m.last = x as u8;
        match x {
            0 => {
                register(cx);
                Poll::Pending
            }
            1 if m.items < m.max => {
                let r: u8 = any();
                m.item[m.items] = r;
                m.items += 1;
                if m.script != 255 {
                    m.script -= 1;
                    if m.script == 0 {
                        m.force = m.after;
                    }
                }
                Poll::Ready(Some(r))
            }
            _ => {
                m.ended = true;
                Poll::Ready(None)
            }
        }
    }
}
/// Brings the stream to a chosen state with forced answers: `k` requests
/// outstanding, then `tail`: 0 waiting for the stream, 1 a request taken and the
/// service not ready, 2 the stream ended, 3 the service failed.
fn reach<S: Stream<Item = Result<u8, MyErr>>>(s: &mut S, k: usize, tail: u8, cx: &mut Context<'_>) {
    let m = m();
    g().force_fut = 0;
    g().force_rdy = 1;
    m.max = 9;
    let mut i = 0;
    while i < k {
        // one request is called, then the stream is pending
        m.script = 1;
        m.force = 1;
        let r = unsafe { Pin::new_unchecked(&mut *s) }.poll_next(cx);
        assert!(r.is_pending() && g().calls == i + 1, "a request of the stream is called when the service is ready");
        i += 1;
    }
    if tail == 1 {
        m.script = 1;
        m.force = 1;
        g().force_rdy = 0;
    } else if tail == 2 {
        m.force = 2;
    } else if tail == 3 {
        m.script = 1;
        m.force = 1;
        g().force_rdy = 2;
    } else {
        m.force = 0;
    }
    if !(k == 0 && tail == 2) {
        let r = unsafe { Pin::new_unchecked(&mut *s) }.poll_next(cx);
        if tail == 3 {
            assert!(r == Poll::Ready(Some(Err(MyErr(g().ready_err)))), "a readiness error is yielded");
            m.ready_err = true;
        } else {
            assert!(r.is_pending(), "nothing to yield: pending");
        }
        assert!(g().calls == k && m.items == k + (tail == 1 || tail == 3) as usize && m.ended == (tail == 2), "the stream and the service were used as documented");
    }
    g().force_fut = 255;
    g().force_rdy = 255;
    m.script = 255;
    m.after = 0;
    unsafe { futures_util::stream::futures_unordered::ANY_WAKE.v = true };
}
/// One poll of the result stream against the monitor; true when it may be polled again.
fn step<S: Stream<Item = Result<u8, MyErr>>>(s: &mut S, ordered: bool, cx: &mut Context<'_>) -> bool {
    let m = m();
    let (p0, r0, q0) = (g().polls, registered(), m.polls);
    let r = unsafe { Pin::new_unchecked(s) }.poll_next(cx);
    // requests: in stream order, once each, only when ready (C01)
    assert!(g().calls <= m.items && m.items <= g().calls + 1, "one call per item");
    let mut k = 0;
    while k < 3 {
        if k < g().calls {
            assert!(g().req[k] == m.item[k], "called in stream order, unchanged");
        }
        k += 1;
    }
    match r {
        Poll::Pending => {
            assert!(registered() > r0, "pending: the task is registered");
            if m.ended || m.ready_err {
                assert!(m.n < g().calls, "pending only while something can still come");
            } else if m.items > g().calls {
                assert!(g().polls > p0 && g().last_poll == 0, "a request waits only for the service");
            } else {
                assert!(m.polls > q0 && m.last == 0, "otherwise it waits for the stream");
            }
            let mut k = 0;
            while k < 3 {
                if k < g().calls && (!ordered || k == m.n) {
                    assert!(m.yielded[k] || !done(k), "a result is not held back");
                }
                k += 1;
            }
            true
        }
        Poll::Ready(None) => {
            assert!(m.ended || m.ready_err, "the end only after the stream ended");
            assert!(m.n == g().calls, "and every response was yielded");
            assert!(m.ready_err || m.items == g().calls, "and every request was called");
            false
        }
        Poll::Ready(Some(r)) => {
            if g().polls != p0 && g().last_poll == 2 {
                assert!(!m.ready_err && r == Err(MyErr(g().ready_err)), "the readiness error, once");
                m.ready_err = true;
                return true;
            }
            if ordered {
                assert!(m.n < g().calls && same(m.n, &r), "results in call order");
                m.yielded[m.n] = true;
                m.n += 1;
            } else {
                let mut t = 3;
                let mut k = 3;
                while k > 0 {
                    k -= 1;
                    if k < g().calls && !m.yielded[k] && same(k, &r) {
                        t = k;
                    }
                }
                assert!(t < 3, "each result is that of one call, once");
                m.yielded[t] = true;
                m.n += 1;
            }
            true
        }
    }
}



/// From the state (k outstanding, tail), one poll in which the stream answers
/// `items` requests and then `after`, and the service answers `rdy`; which
/// futures complete, and with what, is arbitrary.
macro_rules! case {
    ($name:ident, $unwind:literal, $ty:ident, $ordered:literal, $k:literal, $tail:literal, $items:literal, $after:literal, $rdy:literal) => {
        proof!($name, $unwind, {
            cx!(w, cx);
            let mut s = $ty::new(Svc::new(), Reqs);
            reach(&mut s, $k, $tail, &mut cx);
            let m = m();
            m.force = if $items > 0 { 1 } else { $after };
            m.script = if $items > 0 { $items } else { 255 };
            m.after = $after;
            g().force_rdy = $rdy;
            step(&mut s, $ordered, &mut cx);
            forget(s);
        });
    };
}
//@ bounded bound="one poll: 0 outstanding, waiting for the stream; the stream stays pending, the service is not ready" fns="CallAll::poll_next, common::CallAll::poll_next, Drive"
case!(ordered_0_open_a, 6, CallAll, true, 0, 0, 0, 0, 0);
//@ bounded bound="one poll: 0 outstanding, waiting for the stream; the stream ends, the service is not ready" fns="CallAll::poll_next, common::CallAll::poll_next, Drive"
case!(ordered_0_open_b, 6, CallAll, true, 0, 0, 0, 2, 0);
//@ bounded bound="one poll: 0 outstanding, waiting for the stream; one more request, then the stream stays pending, the service is not ready" fns="CallAll::poll_next, common::CallAll::poll_next, Drive"
case!(ordered_0_open_c, 6, CallAll, true, 0, 0, 1, 0, 0);
//@ bounded bound="one poll: 0 outstanding, waiting for the stream; one more request, then the stream stays pending, the service is failed" fns="CallAll::poll_next, common::CallAll::poll_next, Drive"
case!(ordered_0_open_d, 6, CallAll, true, 0, 0, 1, 0, 2);
//@ bounded bound="one poll: 0 outstanding, waiting for the stream; one more request, then the stream stays pending, the service is ready" fns="CallAll::poll_next, common::CallAll::poll_next, Drive"
case!(ordered_0_open_e, 6, CallAll, true, 0, 0, 1, 0, 1);
//@ bounded bound="one poll: 0 outstanding, waiting for the stream; one more request, then the stream ends, the service is ready" fns="CallAll::poll_next, common::CallAll::poll_next, Drive"
case!(ordered_0_open_f, 6, CallAll, true, 0, 0, 1, 2, 1);
//@ bounded bound="one poll: 0 outstanding, a request waiting for the service; the stream stays pending, the service is not ready" fns="CallAll::poll_next, common::CallAll::poll_next, Drive"
case!(ordered_0_held_g, 6, CallAll, true, 0, 1, 0, 0, 0);
//@ bounded bound="one poll: 0 outstanding, a request waiting for the service; the stream stays pending, the service is failed" fns="CallAll::poll_next, common::CallAll::poll_next, Drive"
case!(ordered_0_held_h, 6, CallAll, true, 0, 1, 0, 0, 2);
//@ bounded bound="one poll: 0 outstanding, a request waiting for the service; the stream stays pending, the service is ready" fns="CallAll::poll_next, common::CallAll::poll_next, Drive"
case!(ordered_0_held_i, 6, CallAll, true, 0, 1, 0, 0, 1);
//@ bounded bound="one poll: 0 outstanding, a request waiting for the service; the stream ends, the service is ready" fns="CallAll::poll_next, common::CallAll::poll_next, Drive"
case!(ordered_0_held_j, 6, CallAll, true, 0, 1, 0, 2, 1);
//@ bounded bound="one poll: 1 outstanding, waiting for the stream; the stream stays pending, the service is not ready" fns="CallAll::poll_next, common::CallAll::poll_next, Drive"
case!(ordered_1_open_a, 6, CallAll, true, 1, 0, 0, 0, 0);
//@ bounded bound="one poll: 1 outstanding, waiting for the stream; the stream ends, the service is not ready" fns="CallAll::poll_next, common::CallAll::poll_next, Drive"
case!(ordered_1_open_b, 6, CallAll, true, 1, 0, 0, 2, 0);
//@ bounded bound="one poll: 1 outstanding, waiting for the stream; one more request, then the stream stays pending, the service is not ready" fns="CallAll::poll_next, common::CallAll::poll_next, Drive"
case!(ordered_1_open_c, 6, CallAll, true, 1, 0, 1, 0, 0);
//@ bounded bound="one poll: 1 outstanding, waiting for the stream; one more request, then the stream stays pending, the service is failed" fns="CallAll::poll_next, common::CallAll::poll_next, Drive"
case!(ordered_1_open_d, 6, CallAll, true, 1, 0, 1, 0, 2);
//@ bounded bound="one poll: 1 outstanding, waiting for the stream; one more request, then the stream stays pending, the service is ready" fns="CallAll::poll_next, common::CallAll::poll_next, Drive"
case!(ordered_1_open_e, 6, CallAll, true, 1, 0, 1, 0, 1);
//@ bounded bound="one poll: 1 outstanding, waiting for the stream; one more request, then the stream ends, the service is ready" fns="CallAll::poll_next, common::CallAll::poll_next, Drive"
case!(ordered_1_open_f, 6, CallAll, true, 1, 0, 1, 2, 1);
//@ bounded bound="one poll: 1 outstanding, a request waiting for the service; the stream stays pending, the service is not ready" fns="CallAll::poll_next, common::CallAll::poll_next, Drive"
case!(ordered_1_held_g, 6, CallAll, true, 1, 1, 0, 0, 0);
//@ bounded bound="one poll: 1 outstanding, a request waiting for the service; the stream stays pending, the service is failed" fns="CallAll::poll_next, common::CallAll::poll_next, Drive"
case!(ordered_1_held_h, 6, CallAll, true, 1, 1, 0, 0, 2);
//@ bounded bound="one poll: 1 outstanding, a request waiting for the service; the stream stays pending, the service is ready" fns="CallAll::poll_next, common::CallAll::poll_next, Drive"
case!(ordered_1_held_i, 6, CallAll, true, 1, 1, 0, 0, 1);
//@ bounded bound="one poll: 1 outstanding, a request waiting for the service; the stream ends, the service is ready" fns="CallAll::poll_next, common::CallAll::poll_next, Drive"
case!(ordered_1_held_j, 6, CallAll, true, 1, 1, 0, 2, 1);
//@ bounded bound="one poll: 1 outstanding, stream ended" fns="CallAll::poll_next, common::CallAll::poll_next, Drive"
case!(ordered_1_ended, 6, CallAll, true, 1, 2, 0, 0, 0);
//@ bounded bound="one poll: 2 outstanding, waiting for the stream; the stream stays pending, the service is not ready" fns="CallAll::poll_next, common::CallAll::poll_next, Drive"
case!(ordered_2_open_a, 6, CallAll, true, 2, 0, 0, 0, 0);
//@ bounded bound="one poll: 2 outstanding, waiting for the stream; the stream ends, the service is not ready" fns="CallAll::poll_next, common::CallAll::poll_next, Drive"
case!(ordered_2_open_b, 6, CallAll, true, 2, 0, 0, 2, 0);
//@ bounded bound="one poll: 2 outstanding, waiting for the stream; one more request, then the stream stays pending, the service is not ready" fns="CallAll::poll_next, common::CallAll::poll_next, Drive"
case!(ordered_2_open_c, 6, CallAll, true, 2, 0, 1, 0, 0);
//@ bounded bound="one poll: 2 outstanding, waiting for the stream; one more request, then the stream stays pending, the service is failed" fns="CallAll::poll_next, common::CallAll::poll_next, Drive"
case!(ordered_2_open_d, 6, CallAll, true, 2, 0, 1, 0, 2);
//@ bounded bound="one poll: 2 outstanding, waiting for the stream; one more request, then the stream stays pending, the service is ready" fns="CallAll::poll_next, common::CallAll::poll_next, Drive"
case!(ordered_2_open_e, 6, CallAll, true, 2, 0, 1, 0, 1);
//@ bounded bound="one poll: 2 outstanding, waiting for the stream; one more request, then the stream ends, the service is ready" fns="CallAll::poll_next, common::CallAll::poll_next, Drive"
case!(ordered_2_open_f, 6, CallAll, true, 2, 0, 1, 2, 1);
//@ bounded bound="one poll: 2 outstanding, a request waiting for the service; the stream stays pending, the service is not ready" fns="CallAll::poll_next, common::CallAll::poll_next, Drive"
case!(ordered_2_held_g, 6, CallAll, true, 2, 1, 0, 0, 0);
//@ bounded bound="one poll: 2 outstanding, a request waiting for the service; the stream stays pending, the service is failed" fns="CallAll::poll_next, common::CallAll::poll_next, Drive"
case!(ordered_2_held_h, 6, CallAll, true, 2, 1, 0, 0, 2);
//@ bounded bound="one poll: 2 outstanding, a request waiting for the service; the stream stays pending, the service is ready" fns="CallAll::poll_next, common::CallAll::poll_next, Drive"
case!(ordered_2_held_i, 6, CallAll, true, 2, 1, 0, 0, 1);
//@ bounded bound="one poll: 2 outstanding, a request waiting for the service; the stream ends, the service is ready" fns="CallAll::poll_next, common::CallAll::poll_next, Drive"
case!(ordered_2_held_j, 6, CallAll, true, 2, 1, 0, 2, 1);
//@ bounded bound="one poll: 2 outstanding, stream ended" fns="CallAll::poll_next, common::CallAll::poll_next, Drive"
case!(ordered_2_ended, 6, CallAll, true, 2, 2, 0, 0, 0);
//@ bounded bound="one poll: 0 outstanding, waiting for the stream; the stream stays pending, the service is not ready" fns="CallAllUnordered::poll_next, common::CallAll::poll_next, Drive"
case!(unordered_0_open_a, 6, CallAllUnordered, false, 0, 0, 0, 0, 0);
//@ bounded bound="one poll: 0 outstanding, waiting for the stream; the stream ends, the service is not ready" fns="CallAllUnordered::poll_next, common::CallAll::poll_next, Drive"
case!(unordered_0_open_b, 6, CallAllUnordered, false, 0, 0, 0, 2, 0);
//@ bounded bound="one poll: 0 outstanding, waiting for the stream; one more request, then the stream stays pending, the service is not ready" fns="CallAllUnordered::poll_next, common::CallAll::poll_next, Drive"
case!(unordered_0_open_c, 6, CallAllUnordered, false, 0, 0, 1, 0, 0);
//@ bounded bound="one poll: 0 outstanding, waiting for the stream; one more request, then the stream stays pending, the service is failed" fns="CallAllUnordered::poll_next, common::CallAll::poll_next, Drive"
case!(unordered_0_open_d, 6, CallAllUnordered, false, 0, 0, 1, 0, 2);
//@ bounded bound="one poll: 0 outstanding, waiting for the stream; one more request, then the stream stays pending, the service is ready" fns="CallAllUnordered::poll_next, common::CallAll::poll_next, Drive"
case!(unordered_0_open_e, 6, CallAllUnordered, false, 0, 0, 1, 0, 1);
//@ bounded bound="one poll: 0 outstanding, waiting for the stream; one more request, then the stream ends, the service is ready" fns="CallAllUnordered::poll_next, common::CallAll::poll_next, Drive"
case!(unordered_0_open_f, 6, CallAllUnordered, false, 0, 0, 1, 2, 1);
//@ bounded bound="one poll: 0 outstanding, a request waiting for the service; the stream stays pending, the service is not ready" fns="CallAllUnordered::poll_next, common::CallAll::poll_next, Drive"
case!(unordered_0_held_g, 6, CallAllUnordered, false, 0, 1, 0, 0, 0);
//@ bounded bound="one poll: 0 outstanding, a request waiting for the service; the stream stays pending, the service is failed" fns="CallAllUnordered::poll_next, common::CallAll::poll_next, Drive"
case!(unordered_0_held_h, 6, CallAllUnordered, false, 0, 1, 0, 0, 2);
//@ bounded bound="one poll: 0 outstanding, a request waiting for the service; the stream stays pending, the service is ready" fns="CallAllUnordered::poll_next, common::CallAll::poll_next, Drive"
case!(unordered_0_held_i, 6, CallAllUnordered, false, 0, 1, 0, 0, 1);
//@ bounded bound="one poll: 0 outstanding, a request waiting for the service; the stream ends, the service is ready" fns="CallAllUnordered::poll_next, common::CallAll::poll_next, Drive"
case!(unordered_0_held_j, 6, CallAllUnordered, false, 0, 1, 0, 2, 1);
//@ bounded bound="one poll: 1 outstanding, waiting for the stream; the stream stays pending, the service is not ready" fns="CallAllUnordered::poll_next, common::CallAll::poll_next, Drive"
case!(unordered_1_open_a, 6, CallAllUnordered, false, 1, 0, 0, 0, 0);
//@ bounded bound="one poll: 1 outstanding, waiting for the stream; the stream ends, the service is not ready" fns="CallAllUnordered::poll_next, common::CallAll::poll_next, Drive"
case!(unordered_1_open_b, 6, CallAllUnordered, false, 1, 0, 0, 2, 0);
//@ bounded bound="one poll: 1 outstanding, waiting for the stream; one more request, then the stream stays pending, the service is not ready" fns="CallAllUnordered::poll_next, common::CallAll::poll_next, Drive"
case!(unordered_1_open_c, 6, CallAllUnordered, false, 1, 0, 1, 0, 0);
//@ bounded bound="one poll: 1 outstanding, waiting for the stream; one more request, then the stream stays pending, the service is failed" fns="CallAllUnordered::poll_next, common::CallAll::poll_next, Drive"
case!(unordered_1_open_d, 6, CallAllUnordered, false, 1, 0, 1, 0, 2);
//@ bounded bound="one poll: 1 outstanding, waiting for the stream; one more request, then the stream stays pending, the service is ready" fns="CallAllUnordered::poll_next, common::CallAll::poll_next, Drive"
case!(unordered_1_open_e, 6, CallAllUnordered, false, 1, 0, 1, 0, 1);
//@ bounded bound="one poll: 1 outstanding, waiting for the stream; one more request, then the stream ends, the service is ready" fns="CallAllUnordered::poll_next, common::CallAll::poll_next, Drive"
case!(unordered_1_open_f, 6, CallAllUnordered, false, 1, 0, 1, 2, 1);
//@ bounded bound="one poll: 1 outstanding, a request waiting for the service; the stream stays pending, the service is not ready" fns="CallAllUnordered::poll_next, common::CallAll::poll_next, Drive"
case!(unordered_1_held_g, 6, CallAllUnordered, false, 1, 1, 0, 0, 0);
//@ bounded bound="one poll: 1 outstanding, a request waiting for the service; the stream stays pending, the service is failed" fns="CallAllUnordered::poll_next, common::CallAll::poll_next, Drive"
case!(unordered_1_held_h, 6, CallAllUnordered, false, 1, 1, 0, 0, 2);
//@ bounded bound="one poll: 1 outstanding, a request waiting for the service; the stream stays pending, the service is ready" fns="CallAllUnordered::poll_next, common::CallAll::poll_next, Drive"
case!(unordered_1_held_i, 6, CallAllUnordered, false, 1, 1, 0, 0, 1);
//@ bounded bound="one poll: 1 outstanding, a request waiting for the service; the stream ends, the service is ready" fns="CallAllUnordered::poll_next, common::CallAll::poll_next, Drive"
case!(unordered_1_held_j, 6, CallAllUnordered, false, 1, 1, 0, 2, 1);
//@ bounded bound="one poll: 1 outstanding, stream ended" fns="CallAllUnordered::poll_next, common::CallAll::poll_next, Drive"
case!(unordered_1_ended, 6, CallAllUnordered, false, 1, 2, 0, 0, 0);
//@ bounded bound="one poll: 2 outstanding, waiting for the stream; the stream stays pending, the service is not ready" fns="CallAllUnordered::poll_next, common::CallAll::poll_next, Drive"
case!(unordered_2_open_a, 6, CallAllUnordered, false, 2, 0, 0, 0, 0);
//@ bounded bound="one poll: 2 outstanding, waiting for the stream; the stream ends, the service is not ready" fns="CallAllUnordered::poll_next, common::CallAll::poll_next, Drive"
case!(unordered_2_open_b, 6, CallAllUnordered, false, 2, 0, 0, 2, 0);
//@ bounded bound="one poll: 2 outstanding, waiting for the stream; one more request, then the stream stays pending, the service is not ready" fns="CallAllUnordered::poll_next, common::CallAll::poll_next, Drive"
case!(unordered_2_open_c, 6, CallAllUnordered, false, 2, 0, 1, 0, 0);
//@ bounded bound="one poll: 2 outstanding, waiting for the stream; one more request, then the stream stays pending, the service is failed" fns="CallAllUnordered::poll_next, common::CallAll::poll_next, Drive"
case!(unordered_2_open_d, 6, CallAllUnordered, false, 2, 0, 1, 0, 2);
//@ bounded bound="one poll: 2 outstanding, waiting for the stream; one more request, then the stream stays pending, the service is ready" fns="CallAllUnordered::poll_next, common::CallAll::poll_next, Drive"
case!(unordered_2_open_e, 6, CallAllUnordered, false, 2, 0, 1, 0, 1);
//@ bounded bound="one poll: 2 outstanding, waiting for the stream; one more request, then the stream ends, the service is ready" fns="CallAllUnordered::poll_next, common::CallAll::poll_next, Drive"
case!(unordered_2_open_f, 6, CallAllUnordered, false, 2, 0, 1, 2, 1);
//@ bounded bound="one poll: 2 outstanding, a request waiting for the service; the stream stays pending, the service is not ready" fns="CallAllUnordered::poll_next, common::CallAll::poll_next, Drive"
case!(unordered_2_held_g, 6, CallAllUnordered, false, 2, 1, 0, 0, 0);
//@ bounded bound="one poll: 2 outstanding, a request waiting for the service; the stream stays pending, the service is failed" fns="CallAllUnordered::poll_next, common::CallAll::poll_next, Drive"
case!(unordered_2_held_h, 6, CallAllUnordered, false, 2, 1, 0, 0, 2);
//@ bounded bound="one poll: 2 outstanding, a request waiting for the service; the stream stays pending, the service is ready" fns="CallAllUnordered::poll_next, common::CallAll::poll_next, Drive"
case!(unordered_2_held_i, 6, CallAllUnordered, false, 2, 1, 0, 0, 1);
//@ bounded bound="one poll: 2 outstanding, a request waiting for the service; the stream ends, the service is ready" fns="CallAllUnordered::poll_next, common::CallAll::poll_next, Drive"
case!(unordered_2_held_j, 6, CallAllUnordered, false, 2, 1, 0, 2, 1);
//@ bounded bound="one poll: 2 outstanding, stream ended" fns="CallAllUnordered::poll_next, common::CallAll::poll_next, Drive"
case!(unordered_2_ended, 6, CallAllUnordered, false, 2, 2, 0, 0, 0);
//@ bounded bound="one poll: 0 outstanding, the service failed its readiness poll" fns="CallAll::poll_next, common::CallAll::poll_next"
case!(ordered_0_failed, 6, CallAll, true, 0, 3, 0, 0, 1);
//@ bounded bound="one poll: 1 outstanding, the service failed its readiness poll" fns="CallAll::poll_next, common::CallAll::poll_next"
case!(ordered_1_failed, 6, CallAll, true, 1, 3, 0, 0, 1);
//@ bounded bound="one poll: 2 outstanding, the service failed its readiness poll" fns="CallAll::poll_next, common::CallAll::poll_next"
case!(ordered_2_failed, 6, CallAll, true, 2, 3, 0, 0, 1);
//@ bounded bound="one poll: 0 outstanding, the service failed its readiness poll" fns="CallAllUnordered::poll_next, common::CallAll::poll_next"
case!(unordered_0_failed, 6, CallAllUnordered, false, 0, 3, 0, 0, 1);
//@ bounded bound="one poll: 1 outstanding, the service failed its readiness poll" fns="CallAllUnordered::poll_next, common::CallAll::poll_next"
case!(unordered_1_failed, 6, CallAllUnordered, false, 1, 3, 0, 0, 1);
//@ bounded bound="one poll: 2 outstanding, the service failed its readiness poll" fns="CallAllUnordered::poll_next, common::CallAll::poll_next"
case!(unordered_2_failed, 6, CallAllUnordered, false, 2, 3, 0, 0, 1);

//@ proof fns="CallAll::take_service, CallAll::into_inner, CallAllUnordered::take_service, CallAllUnordered::into_inner, CallAll::unordered" note="the very service given, at any time"
proof!(taking_back, 12, {
    cx!(w, cx);
    let svc = Svc::new();
    let inst = svc.inst;
    let s = CallAll::new(svc, Reqs);
    if any() {
        let u = s.unordered();
        if any() {
            let x = u.into_inner();
            assert!(x.inst == inst, "the service given");
            forget(x);
        } else {
            let mut u = u;
            let x = unsafe { Pin::new_unchecked(&mut u) }.take_service();
            assert!(x.inst == inst, "the service given");
            forget((x, u));
        }
    } else if any() {
        let mut s = s;
        reach(&mut s, 1, 0, &mut cx);
        let x = unsafe { Pin::new_unchecked(&mut s) }.take_service();
        assert!(x.inst == inst, "the service given");
        forget((x, s));
    } else {
        let mut s = s;
        reach(&mut s, 1, 1, &mut cx);
        let x = s.into_inner();
        assert!(x.inst == inst, "the service given");
        forget(x);
    }
});
