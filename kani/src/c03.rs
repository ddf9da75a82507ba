//! C03 Concurrency limit.
//!
//! Invariant over any number of handles and response futures sharing one
//! semaphore:  available + |handles holding| + |live response futures| = max.
//! Every contract below is one operation from an arbitrary state of that
//! invariant (any number of permits held elsewhere), and states the exact
//! change of both sides, so the invariant, and with it "live futures <= max",
//! follows by induction over the operations for any number of handles.
use crate::env::*;
use crate::{cx, proof};
use std::sync::Arc;
use tokio::sync::{OwnedSemaphorePermit, Semaphore};
use tower::limit::concurrency::{ConcurrencyLimit, ConcurrencyLimitLayer, GlobalConcurrencyLimitLayer};
use tower_layer::Layer;

type CL = ConcurrencyLimit<Svc>;

/// A handle in any state: holding capacity or not (`h`); `free` permits left.
/// What other handles and futures hold is everything else.
fn handle(cx: &mut Context<'_>, free: usize, h: bool) -> (CL, Arc<Semaphore>) {
    let sem = Arc::new(Semaphore::new(free + h as usize));
    let mut s = if any() {
        ConcurrencyLimit::with_semaphore(Svc::new(), sem.clone())
    } else {
        GlobalConcurrencyLimitLayer::with_semaphore(sem.clone()).layer(Svc::new())
    };
    if h {
        let r = s.poll_ready(cx);
        assume(!matches!(r, Poll::Ready(Err(_))));
        assert!(sem.available_permits() == free, "a handle takes one unit when it is readied");
    }
    (s, sem)
}
fn free() -> usize {
    let n: usize = any();
    assume(n < Semaphore::MAX_PERMITS);
    n
}

//@ proof fns="ConcurrencyLimit::with_semaphore, ConcurrencyLimit::poll_ready, GlobalConcurrencyLimitLayer::with_semaphore, GlobalConcurrencyLimitLayer::layer"
//@ note="any number of free permits, handle holding or not"
proof!(poll_ready_contract, 6, {
    cx!(w, cx);
    let free = free();
    let h: bool = any();
    let (mut s, sem) = handle(&mut cx, free, h);
    let (p0, r0) = (g().polls, registered());
    let r = s.poll_ready(&mut cx);
    if !h && free == 0 {
        cover!(true, "refused at the limit");
        assert!(r.is_pending() && g().polls == p0, "no readiness without capacity");
        assert!(registered() > r0, "registered for capacity");
        assert!(sem.available_permits() == 0);
    } else {
        assert!(g().polls == p0 + 1, "not refused while capacity is free");
        assert!(same_ready(&r), "readiness of the wrapped service is passed through");
        if r.is_pending() {
            cover!(true, "wrapped service pending");
            assert!(registered() > r0);
        }
        let held = free + h as usize - sem.available_permits();
        if matches!(r, Poll::Ready(Ok(()))) {
            assert!(held == 1, "ready holds capacity for exactly one call");
        } else {
            assert!(held <= 1);
        }
    }
    forget(s);
});

//@ proof fns="ConcurrencyLimit::call, concurrency::ResponseFuture::poll, concurrency::ResponseFuture::drop"
//@ note="the unit moves from the handle to the future, stays while it is pending, comes back exactly when it is dropped"
proof!(call_and_future_contract, 6, {
    cx!(w, cx);
    let free = free();
    g().rdy_err = false;
    let (mut s, sem) = handle(&mut cx, free, true);
    assume(s.get_ref().ready == 1);
    let req: u8 = any();
    let mut f = s.call(req);
    assert!(g().calls == 1 && g().req[0] == req, "forwarded once, unchanged");
    assert!(sem.available_permits() == free, "the unit moved into the future");
    // the handle holds nothing any more
    if any() {
        drop(s);
        assert!(sem.available_permits() == free, "a called handle holds no capacity");
    } else {
        let p0 = g().polls;
        let r = s.poll_ready(&mut cx);
        if free == 0 {
            assert!(r.is_pending() && g().polls == p0, "a called handle needs new capacity");
            forget(s);
        } else {
            assert!(g().polls == p0 + 1);
            assert!(sem.available_permits() == free - 1);
            drop(s);
            assert!(sem.available_permits() == free);
        }
    }
    let end = below(3);
    if end > 0 {
        let r0 = registered();
        let r = poll(&mut f, &mut cx);
        assert!(sem.available_permits() == free, "held until the future is dropped");
        match &r {
            Poll::Pending => {
                cover!(true, "pending");
                assert!(!done(0) && registered() > r0)
            }
            Poll::Ready(r) => {
                cover!(true, "ready");
                assert!(same(0, r))
            }
        }
    }
    let woken = unsafe { tokio::ghost::WOKEN.v };
    drop(f);
    assert!(sem.available_permits() == free + 1, "returned exactly when the future is dropped");
    assert!(g().live == 0);
    let _ = woken;
});

//@ proof fns="ConcurrencyLimit::clone"
proof!(clone_and_drop_contract, 6, {
    cx!(w, cx);
    let free = free();
    let h: bool = any();
    let (s, sem) = handle(&mut cx, free, h);
    let mut c = s.clone();
    assert!(sem.available_permits() == free, "a clone inherits no capacity");
    let (p0, r0) = (g().polls, registered());
    let r = c.poll_ready(&mut cx);
    if free == 0 {
        assert!(r.is_pending() && g().polls == p0 && registered() > r0, "a clone needs its own capacity");
    } else {
        assert!(g().polls == p0 + 1 && same_ready(&r));
        assert!(sem.available_permits() == free - 1);
    }
    let woken = unsafe { tokio::ghost::WOKEN.v };
    if any() {
        drop(s);
        assert!(sem.available_permits() == free - (free > 0) as usize + h as usize, "dropping a readied handle returns its unit");
        if h && free == 0 {
            cover!(true, "waiter woken");
            assert!(unsafe { tokio::ghost::WOKEN.v } > woken, "and wakes the waiting clone");
        }
        forget(c);
    } else {
        drop(c);
        assert!(sem.available_permits() == free);
        forget(s);
    }
});

//@ proof fns="ConcurrencyLimit::new, ConcurrencyLimitLayer::new, ConcurrencyLimitLayer::layer, GlobalConcurrencyLimitLayer::new, GlobalConcurrencyLimitLayer::clone"
//@ note="max is any usize; exactness of `new` is shown at max 0, 1, 2 by exhausting it"
proof!(construction, 6, {
    cx!(w, cx);
    quiet(false, false, false, false);
    let max = below(3);
    let global: bool = any();
    let (mut a, mut b) = if global {
        let l = GlobalConcurrencyLimitLayer::new(max);
        if any() {
            (l.layer(Svc::new()), l.clone().layer(Svc::new()))
        } else {
            (l.layer(Svc::new()), l.layer(Svc::new()))
        }
    } else if any() {
        let l = ConcurrencyLimitLayer::new(max);
        (l.layer(Svc::new()), l.layer(Svc::new()))
    } else {
        (ConcurrencyLimit::new(Svc::new(), max), ConcurrencyLimit::new(Svc::new(), max))
    };
    let r = a.poll_ready(&mut cx);
    assert!(r.is_ready() == (max > 0));
    if max > 0 {
        let f = a.call(1);
        let ra = a.poll_ready(&mut cx);
        assert!(ra.is_ready() == (max > 1), "the configured maximum, not more, not less");
        if ra.is_ready() {
            let mut c = a.clone();
            assert!(c.poll_ready(&mut cx).is_pending(), "clones share the limit");
            forget(c);
        }
        let rb = b.poll_ready(&mut cx);
        assert!(rb.is_ready() == !global, "global: one limit for all services; otherwise one each");
        forget(f);
    }
    forget((a, b));
});
