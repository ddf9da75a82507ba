//! C08 A failed or vanished buffer worker reaches every pending and future request.
//! kind: other
//! trusted: light contracts: `Arc::drop_slow` leaks the content and `Mutex::lock` takes its uncontended path (single thread)
use crate::buf::*;
use crate::{cx, proof};

/// A request not handed over resolves to the failure of the service.
fn failed(f: &mut R, cx: &mut Context<'_>) {
    let r = poll(f, cx);
    match &r {
        Poll::Ready(Err(e)) => assert!(service_error(e), "the error is that of the service"),
        _ => panic!("a request accepted before the failure resolves to the failure"),
    }
    forget(r);
}
fn closed(f: &mut R, cx: &mut Context<'_>) {
    let r = poll(f, cx);
    match &r {
        Poll::Ready(Err(e)) => assert!(closed_error(e), "no failure of the service: the error says closed"),
        _ => panic!("a request not handed over when the worker goes resolves to an error"),
    }
    forget(r);
}
/// Every handle reports the failure (of the service, or that the worker is gone).
fn handle_fails(b: &mut B, service: bool, cx: &mut Context<'_>) {
    let r = b.poll_ready(cx);
    match &r {
        Poll::Ready(Err(e)) => assert!(if service { service_error(e) } else { closed_error(e) }, "the error of the handle"),
        _ => panic!("a handle reports the failure from then on"),
    }
    forget(r);
}

/// Three requests over two handles; the service answers `script`, whose last entry is the failure.
fn fails(script: &'static [u8], served: usize) {
    cx!(w, cx);
    g().script = script;
    let (mut a, mut wk) = Buffer::pair(Svc::new(), 3);
    let mut b = a.clone();
    let mut f = [send(&mut a, &mut cx), send(&mut b, &mut cx), send(&mut a, &mut cx)];
    let mut k = 0;
    while k < script.len() {
        if script[k] == 0 {
            assert!(!work(&mut wk, &mut cx), "a live worker does not finish");
        }
        k += 1;
    }
    work(&mut wk, &mut cx);
    let polls = g().polls;
    assert!(polls == script.len() as u32 && g().calls == served);
    let mut i = 0;
    while i < 3 {
        if i < served {
            is_response(&mut f[i].1, i, &mut cx);
        } else {
            failed(&mut f[i].1, &mut cx);
        }
        i += 1;
    }
    handle_fails(&mut a, true, &mut cx);
    handle_fails(&mut b, true, &mut cx);
    let mut c = b.clone();
    handle_fails(&mut c, true, &mut cx);
    work(&mut wk, &mut cx);
    assert!(g().polls == polls && g().calls == served, "the failed service is left alone");
    forget((a, b, c, wk, f));
}
//@ bounded bound="this history of at most three requests over up to three handles; every request, response and error value" fns="Worker::{poll, poll_next_msg, failed}, Handle::get_error_on_closed, Buffer::poll_ready, ResponseFuture::poll, ServiceError::{new, clone, source}" note="the first readiness poll fails"
proof!(fails_at_once, 6, light, { fails(&[2], 0); });
//@ bounded bound="this history of at most three requests over up to three handles; every request, response and error value" fns="Worker::{poll, poll_next_msg, failed}" note="it fails for the request the worker was holding"
proof!(fails_when_held, 6, light, { fails(&[0, 2], 0); });
//@ bounded bound="this history of at most three requests over up to three handles; every request, response and error value" fns="Worker::{poll, poll_next_msg, failed}" note="it fails after one request was handed over: that one keeps its response"
proof!(fails_later, 6, light, { fails(&[1, 2], 1); });
//@ bounded bound="this history of at most three requests over up to three handles; every request, response and error value" fns="Worker::{poll, poll_next_msg, failed}" note="it fails for the last request"
proof!(fails_last, 6, light, { fails(&[1, 1, 0, 2], 2); });

//@ bounded bound="this history of at most three requests over up to three handles; every request, response and error value" fns="Buffer::{poll_ready, call}, Worker::{poll, failed}" note="a handle that had been told it is ready calls after the failure; one that waits for capacity is woken by it"
proof!(readied_before_failure, 6, light, {
    cx!(w, cx);
    g().script = &[2];
    let (mut a, mut wk) = Buffer::pair(Svc::new(), 2);
    let mut b = a.clone();
    let mut c = a.clone();
    let mut s0 = send(&mut a, &mut cx);
    assert!(ready(&mut b, &mut cx) == 1);
    assert!(ready(&mut c, &mut cx) == 0, "no capacity left");
    let k0 = woken();
    work(&mut wk, &mut cx);
    assert!(woken() > k0, "those who wait are woken");
    let mut f = b.call(any());
    work(&mut wk, &mut cx);
    assert!(g().polls == 1 && g().calls == 0, "the failed service is left alone");
    failed(&mut s0.1, &mut cx);
    failed(&mut f, &mut cx);
    handle_fails(&mut b, true, &mut cx);
    handle_fails(&mut c, true, &mut cx);
    forget((a, b, c, wk, s0, f));
});
//@ bounded bound="this history of at most three requests over up to three handles; every request, response and error value" fns="Worker::{poll, poll_next_msg, failed}" note="the failed worker ends even while a handle keeps the slot it was promised; nobody is left waiting"
proof!(waiting_callers_woken, 6, light, {
    cx!(w, cx);
    g().script = &[0, 2];
    let (mut a, mut wk) = Buffer::pair(Svc::new(), 2);
    let mut s0 = send(&mut a, &mut cx);
    let mut s1 = send(&mut a, &mut cx);
    assert!(!work(&mut wk, &mut cx));
    is_pending(&mut s0.1, &mut cx);
    is_pending(&mut s1.1, &mut cx);
    let k0 = woken();
    assert!(work(&mut wk, &mut cx), "nothing left to do: the failed worker ends");
    assert!(woken() >= k0 + 2, "both callers are woken");
    failed(&mut s0.1, &mut cx);
    failed(&mut s1.1, &mut cx);
    forget((a, wk, s0, s1));
});
//@ bounded bound="this history of at most three requests over up to three handles; every request, response and error value" fns="Worker::{poll, poll_next_msg, failed}" note="the caller of the request that saw the failure had gone: the others still learn of it"
proof!(failure_seen_by_nobody, 6, light, {
    cx!(w, cx);
    g().script = &[0, 2];
    let (mut a, mut wk) = Buffer::pair(Svc::new(), 3);
    let s0 = send(&mut a, &mut cx);
    let s1 = send(&mut a, &mut cx);
    let mut s2 = send(&mut a, &mut cx);
    assert!(!work(&mut wk, &mut cx));
    drop(s0);
    work(&mut wk, &mut cx);
    assert!(g().polls == 2 && g().calls == 0);
    drop(s1);
    failed(&mut s2.1, &mut cx);
    handle_fails(&mut a, true, &mut cx);
    forget((a, wk, s2));
});

/// The worker is dropped with one request in its hand (if `held`) and others queued.
fn vanishes(held: bool) {
    cx!(w, cx);
    g().script = &[0];
    let (mut a, mut wk) = Buffer::pair(Svc::new(), 3);
    let mut b = a.clone();
    let mut c = a.clone();
    let mut s0 = send(&mut a, &mut cx);
    let mut s1 = send(&mut a, &mut cx);
    if held {
        assert!(!work(&mut wk, &mut cx));
    }
    is_pending(&mut s0.1, &mut cx);
    is_pending(&mut s1.1, &mut cx);
    assert!(ready(&mut b, &mut cx) == 1);
    let k0 = woken();
    drop(wk);
    assert!(woken() >= k0 + 2, "both callers are woken");
    closed(&mut s0.1, &mut cx);
    closed(&mut s1.1, &mut cx);
    let mut f = b.call(any());
    closed(&mut f, &mut cx);
    handle_fails(&mut a, false, &mut cx);
    handle_fails(&mut b, false, &mut cx);
    handle_fails(&mut c, false, &mut cx);
    assert!(g().calls == 0);
    forget((a, b, c, s0, s1, f));
}
//@ bounded bound="this history of at most three requests over up to three handles; every request, response and error value" fns="Buffer::{poll_ready, call}, ResponseFuture::poll, Handle::get_error_on_closed" note="the worker is dropped before it ran; a readied handle calls afterwards"
proof!(dropped_idle, 6, light, { vanishes(false); });
//@ bounded bound="this history of at most three requests over up to three handles; every request, response and error value" fns="Buffer::{poll_ready, call}, ResponseFuture::poll, Handle::get_error_on_closed" note="the worker is dropped holding a request"
proof!(dropped_holding, 6, light, { vanishes(true); });
//@ bounded bound="this history of at most three requests over up to three handles; every request, response and error value" fns="Buffer::poll_ready, ResponseFuture::poll" note="what was handed over before the worker went keeps its response"
proof!(handed_over_survives, 6, light, {
    cx!(w, cx);
    g().script = &[1];
    let (mut a, mut wk) = Buffer::pair(Svc::new(), 2);
    let (q, mut f) = send(&mut a, &mut cx);
    assert!(!work(&mut wk, &mut cx) && g().calls == 1 && g().req[0] == q);
    drop(wk);
    handle_fails(&mut a, false, &mut cx);
    is_response(&mut f, 0, &mut cx);
    forget((a, f));
});
