//! C09 Buffer capacity is bounded and not leaked.
//! kind: other
//! trusted: light contracts: `Arc::drop_slow` leaks the content and `Mutex::lock` takes its uncontended path (single thread)
use crate::buf::*;
use crate::{cx, proof};

/// A handle must be told to wait: `b` are accepted and not taken, or promised.
fn full(h: &mut B, cx: &mut Context<'_>) {
    assert!(ready(h, cx) == 0, "no more than `bound` requests wait or may be sent");
}
fn free(h: &mut B, cx: &mut Context<'_>) {
    assert!(ready(h, cx) == 1, "capacity that is not in use is given out");
}
//@ bounded bound="this history of at most three requests over up to three handles; every request, response and error value" fns="Buffer::{pair, poll_ready, call, clone}, Worker::{poll, poll_next_msg}" note="bound 1: a promise, a waiting request and the next promise each take the one slot; taking the request by the worker frees it and wakes who waits"
proof!(bound_one, 6, light, {
    cx!(w, cx);
    g().force_rdy = 1;
    let (mut a, mut wk) = Buffer::pair(Svc::new(), 1);
    let mut b = a.clone();
    free(&mut a, &mut cx);
    full(&mut b, &mut cx);
    free(&mut a, &mut cx); // the promise stands, once
    full(&mut b, &mut cx);
    let f = a.call(any());
    full(&mut b, &mut cx);
    full(&mut a, &mut cx);
    let k0 = woken();
    assert!(!work(&mut wk, &mut cx) && g().calls == 1);
    assert!(woken() > k0, "who waits for capacity is woken");
    free(&mut b, &mut cx);
    full(&mut a, &mut cx);
    forget((a, b, wk, f));
});
//@ bounded bound="this history of at most three requests over up to three handles; every request, response and error value" fns="Buffer::{pair, poll_ready, call, clone}, Worker::{poll, poll_next_msg}" note="bound 1: one more waits beyond the one the worker holds, not two"
proof!(one_beyond_held, 6, light, {
    cx!(w, cx);
    g().force_rdy = 1;
    g().script = &[0, 0];
    let (mut a, mut wk) = Buffer::pair(Svc::new(), 1);
    let mut b = a.clone();
    let s0 = send(&mut a, &mut cx);
    assert!(!work(&mut wk, &mut cx) && g().calls == 0);
    let s1 = send(&mut b, &mut cx);
    full(&mut a, &mut cx);
    full(&mut b, &mut cx);
    assert!(!work(&mut wk, &mut cx) && g().calls == 0);
    full(&mut a, &mut cx);
    assert!(!work(&mut wk, &mut cx) && g().calls == 2);
    free(&mut a, &mut cx);
    full(&mut b, &mut cx);
    forget((a, b, wk, s0, s1));
});
//@ bounded bound="this history of at most three requests over up to three handles; every request, response and error value" fns="Buffer::{pair, poll_ready, call, clone}" note="bound 2: two promises, or one promise and one request, and no more; a dropped handle gives its promise back"
proof!(bound_two, 6, light, {
    cx!(w, cx);
    g().force_rdy = 1;
    let (mut a, wk) = Buffer::pair(Svc::new(), 2);
    let mut b = a.clone();
    let mut c = a.clone();
    free(&mut a, &mut cx);
    free(&mut b, &mut cx);
    full(&mut c, &mut cx);
    let f = a.call(any());
    full(&mut c, &mut cx);
    full(&mut a, &mut cx);
    let k0 = woken();
    drop(b);
    assert!(woken() > k0, "who waits for capacity is woken");
    free(&mut c, &mut cx);
    full(&mut a, &mut cx);
    forget((a, c, wk, f));
});
//@ bounded bound="this history of at most three requests over up to three handles; every request, response and error value" fns="Buffer::{poll_ready, clone}" note="the clone of a handle that was told it is ready is promised nothing, and does not take the promise away"
proof!(clone_of_ready, 6, light, {
    cx!(w, cx);
    g().force_rdy = 1;
    let (mut a, mut wk) = Buffer::pair(Svc::new(), 1);
    free(&mut a, &mut cx);
    let mut b = a.clone();
    full(&mut b, &mut cx);
    drop(b);
    let mut c = a.clone();
    full(&mut c, &mut cx);
    let q = any();
    let f = a.call(q);
    assert!(!work(&mut wk, &mut cx) && g().calls == 1 && g().req[0] == q);
    free(&mut c, &mut cx);
    forget((a, c, wk, f));
});
//@ bounded bound="this history of at most three requests over up to three handles; every request, response and error value" fns="Buffer::{poll_ready, call}, Worker::{poll, poll_next_msg}" note="an abandoned request keeps its slot until the worker skips it, and no longer"
proof!(abandoned, 6, light, {
    cx!(w, cx);
    g().force_rdy = 1;
    let (mut a, mut wk) = Buffer::pair(Svc::new(), 2);
    let mut b = a.clone();
    let (_, f0) = send(&mut a, &mut cx);
    let (_, f1) = send(&mut a, &mut cx);
    full(&mut a, &mut cx);
    drop(f0);
    drop(f1);
    assert!(!work(&mut wk, &mut cx) && g().calls == 0);
    free(&mut a, &mut cx);
    free(&mut b, &mut cx);
    let mut c = a.clone();
    full(&mut c, &mut cx);
    forget((a, b, c, wk));
});
//@ bounded bound="this history of at most three requests over up to three handles; every request, response and error value" fns="Buffer::{poll_ready, call}, Worker::{poll, poll_next_msg}" note="round after round the whole capacity comes back"
proof!(rounds, 6, light, {
    cx!(w, cx);
    g().force_rdy = 1;
    let (mut a, mut wk) = Buffer::pair(Svc::new(), 1);
    let mut b = a.clone();
    let mut k = 0;
    while k < 3 {
        let (_, f) = send(&mut a, &mut cx);
        full(&mut b, &mut cx);
        if k == 1 {
            drop(f);
        } else {
            forget(f);
        }
        assert!(!work(&mut wk, &mut cx));
        k += 1;
    }
    free(&mut b, &mut cx);
    full(&mut a, &mut cx);
    assert!(g().calls == 2);
    forget((a, b, wk));
});
//@ bounded bound="this history of at most three requests over up to three handles; every request, response and error value" fns="Buffer::poll_ready" note="a handle that waits and goes away takes no capacity with it"
proof!(waiter_gone, 6, light, {
    cx!(w, cx);
    g().force_rdy = 1;
    let (mut a, mut wk) = Buffer::pair(Svc::new(), 1);
    let mut b = a.clone();
    let mut c = a.clone();
    let (_, f) = send(&mut a, &mut cx);
    full(&mut b, &mut cx);
    assert!(!work(&mut wk, &mut cx) && g().calls == 1);
    drop(b);
    free(&mut c, &mut cx);
    full(&mut a, &mut cx);
    forget((a, c, wk, f));
});
