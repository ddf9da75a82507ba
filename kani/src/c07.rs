//! C07 A buffer delivers each accepted request once, in order, and each response to its caller.
//! kind: other
//! trusted: light contracts: `Arc::drop_slow` leaks the content and `Mutex::lock` takes its uncontended path (single thread)
use crate::buf::*;
use crate::{cx, proof};

/// Three requests over two handles; those in `gone` (bit mask) lose their response future before
/// the worker runs.  The service's readiness answers: `script`, then Ready.
fn order(gone: u8, script: &'static [u8]) {
    cx!(w, cx);
    g().force_rdy = 1;
    g().script = script;
    let (mut a, mut wk) = Buffer::pair(Svc::new(), 3);
    let mut b = a.clone();
    let mut f = [Some(send(&mut a, &mut cx)), Some(send(&mut b, &mut cx)), Some(send(&mut a, &mut cx))];
    assert!(g().calls == 0, "only the worker calls the service");
    let mut i = 0;
    while i < 3 {
        if gone & (1 << i) != 0 {
            drop(f[i].take());
        }
        i += 1;
    }
    served(&mut wk, script, &mut f, &mut cx);
    forget((a, b, wk, f));
}
/// The worker runs until it has nothing to do; the requests still in `f` were handed over.
fn served<W: Future<Output = ()>>(wk: &mut W, script: &'static [u8], f: &mut [Option<(u8, R)>], cx: &mut Context<'_>) {
    let mut k = 0;
    while k < script.len() {
        if script[k] == 0 {
            assert!(!work(wk, cx), "a live worker does not finish");
        }
        k += 1;
    }
    assert!(!work(wk, cx), "a live worker does not finish");
    delivered(0, f, cx);
}
/// ... each once, in the order accepted, after `t` earlier ones
fn delivered(mut t: usize, f: &mut [Option<(u8, R)>], cx: &mut Context<'_>) {
    let mut i = 0;
    while i < f.len() {
        if let Some((q, f)) = &mut f[i] {
            assert!(t < g().calls && g().req[t] == *q, "handed over once each, in the order they were accepted");
            is_response(f, t, cx);
            t += 1;
        }
        i += 1;
    }
    assert!(g().calls == t, "abandoned requests are skipped, none is handed over twice");
}
//@ bounded bound="this history of at most three requests over up to three handles; every request, response and error value" fns="Buffer::{pair, poll_ready, call, clone}, Worker::{poll, poll_next_msg}, ResponseFuture::poll" note="three requests of two handles"
proof!(order_all, 6, light, { order(0, &[]); });
//@ bounded bound="this history of at most three requests over up to three handles; every request, response and error value" fns="Worker::{poll, poll_next_msg}" note="the service is not ready for the first request at first"
proof!(order_pend_first, 6, light, { order(0, &[0]); });
//@ bounded bound="this history of at most three requests over up to three handles; every request, response and error value" fns="Worker::{poll, poll_next_msg}" note="... nor for a later one"
proof!(order_pend_later, 6, light, { order(0, &[1, 0, 0]); });
//@ bounded bound="this history of at most three requests over up to three handles; every request, response and error value" fns="Worker::{poll, poll_next_msg}" note="the first one was abandoned"
proof!(gone_first, 6, light, { order(1, &[]); });
//@ bounded bound="this history of at most three requests over up to three handles; every request, response and error value" fns="Worker::{poll, poll_next_msg}" note="the second one was abandoned"
proof!(gone_second, 6, light, { order(2, &[]); });
//@ bounded bound="this history of at most three requests over up to three handles; every request, response and error value" fns="Worker::{poll, poll_next_msg}" note="the last one was abandoned, the service not ready at first"
proof!(gone_last, 6, light, { order(4, &[0]); });
//@ bounded bound="this history of at most three requests over up to three handles; every request, response and error value" fns="Worker::{poll, poll_next_msg}" note="two in a row were abandoned"
proof!(gone_two, 6, light, { order(3, &[]); });
//@ bounded bound="this history of at most three requests over up to three handles; every request, response and error value" fns="Worker::{poll, poll_next_msg}" note="all were abandoned"
proof!(gone_all, 6, light, { order(7, &[]); });

/// The worker holds the first request while the service is not ready; its caller goes away.
//@ bounded bound="this history of at most three requests over up to three handles; every request, response and error value" fns="Worker::{poll, poll_next_msg}" note="the request the worker already holds is abandoned"
proof!(gone_held, 6, light, {
    cx!(w, cx);
    g().force_rdy = 1;
    g().script = &[0];
    let (mut a, mut wk) = Buffer::pair(Svc::new(), 3);
    let (_, f0) = send(&mut a, &mut cx);
    let s1 = send(&mut a, &mut cx);
    assert!(!work(&mut wk, &mut cx) && g().polls == 1 && g().calls == 0);
    drop(f0);
    let s2 = send(&mut a, &mut cx);
    let mut f = [Some(s1), Some(s2)];
    served(&mut wk, &[], &mut f, &mut cx);
    forget((a, wk, f));
});
//@ bounded bound="this history of at most three requests over up to three handles; every request, response and error value" fns="Worker::{poll, poll_next_msg}" note="the request the worker already holds stays first when others arrive"
proof!(held_stays_first, 6, light, {
    cx!(w, cx);
    g().force_rdy = 1;
    g().script = &[0, 0];
    let (mut a, mut wk) = Buffer::pair(Svc::new(), 1);
    let s0 = send(&mut a, &mut cx);
    assert!(!work(&mut wk, &mut cx) && g().polls == 1 && g().calls == 0);
    let mut b = a.clone();
    let s1 = send(&mut b, &mut cx);
    assert!(!work(&mut wk, &mut cx) && g().polls == 2 && g().calls == 0);
    let mut f = [Some(s0), Some(s1)];
    is_pending(&mut f[0].as_mut().unwrap().1, &mut cx);
    is_pending(&mut f[1].as_mut().unwrap().1, &mut cx);
    served(&mut wk, &[], &mut f, &mut cx);
    forget((a, b, wk, f));
});
//@ bounded bound="this history of at most three requests over up to three handles; every request, response and error value" fns="Buffer::{poll_ready, call, clone}, Worker::{poll, poll_next_msg}, ResponseFuture::poll" note="requests arrive between runs of the worker, which is woken by them; the caller is woken by the hand-over"
proof!(interleaved, 6, light, {
    cx!(w, cx);
    g().force_rdy = 1;
    let (mut a, mut wk) = Buffer::pair(Svc::new(), 2);
    assert!(!work(&mut wk, &mut cx), "nothing to do yet");
    let k0 = woken();
    let mut s0 = send(&mut a, &mut cx);
    assert!(woken() == k0 + 1, "the idle worker is woken by a request");
    is_pending(&mut s0.1, &mut cx);
    let k1 = woken();
    assert!(!work(&mut wk, &mut cx));
    assert!(woken() > k1, "the caller is woken when its response can be polled");
    let mut b = a.clone();
    let s1 = send(&mut b, &mut cx);
    let s2 = send(&mut a, &mut cx);
    assert!(!work(&mut wk, &mut cx));
    let mut f = [Some(s0), Some(s1), Some(s2)];
    delivered(0, &mut f, &mut cx);
    forget((a, b, wk, f));
});
//@ bounded bound="this history of at most three requests over up to three handles; every request, response and error value" fns="ResponseFuture::poll" note="a response future is polled until the response comes; its Pending is passed on with the task"
proof!(response_later, 6, light, {
    cx!(w, cx);
    g().force_rdy = 1;
    let (mut a, mut wk) = Buffer::pair(Svc::new(), 2);
    let (q, mut f) = send(&mut a, &mut cx);
    assert!(!work(&mut wk, &mut cx) && g().calls == 1 && g().req[0] == q);
    let r0 = registered();
    let r = poll(&mut f, &mut cx);
    if r.is_pending() {
        assert!(registered() > r0, "pending: the task is registered");
        is_response(&mut f, 0, &mut cx);
    } else if let Poll::Ready(r) = &r {
        assert!(same_boxed(0, r), "each response goes to its own caller, unchanged");
    }
    assert!(g().calls == 1);
    forget((a, wk, f, r));
});
//@ bounded bound="this history of at most three requests over up to three handles; every request, response and error value" fns="Worker::{poll, poll_next_msg}" note="the handles are gone: what was accepted is still handed over, then the worker ends"
proof!(handles_gone, 6, light, {
    cx!(w, cx);
    g().force_rdy = 1;
    g().script = &[0];
    let (mut a, mut wk) = Buffer::pair(Svc::new(), 3);
    let mut b = a.clone();
    let mut f = [Some(send(&mut a, &mut cx)), Some(send(&mut b, &mut cx))];
    assert!(!work(&mut wk, &mut cx) && g().calls == 0);
    drop(a);
    drop(b);
    assert!(work(&mut wk, &mut cx), "no request can come: the worker ends");
    delivered(0, &mut f, &mut cx);
    assert!(work(&mut wk, &mut cx), "and stays ended");
    forget((wk, f));
});
//@ bounded bound="this history of at most three requests over up to three handles; every request, response and error value" fns="Worker::{poll, poll_next_msg}" note="an idle worker is woken when the last handle goes, and ends"
proof!(handles_gone_idle, 6, light, {
    cx!(w, cx);
    let (a, mut wk) = Buffer::<u8, Fut>::pair(Svc::new(), 1);
    let b = a.clone();
    assert!(!work(&mut wk, &mut cx));
    drop(a);
    assert!(!work(&mut wk, &mut cx), "another handle is left");
    let k0 = woken();
    drop(b);
    assert!(woken() > k0, "the worker is woken when the last handle goes");
    assert!(work(&mut wk, &mut cx) && g().polls == 0 && g().calls == 0);
    forget(wk);
});
