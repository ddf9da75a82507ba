//! C04 rate limit.
//! hooks: rate
use crate::env::*;
use crate::{cx, proof};
use tokio::time::{peek, Instant};
use tower::limit::rate::{Rate, RateLimit, RateLimitLayer};
use tower_layer::Layer;

fn service(num: u64, per: Duration, layer: bool) -> RateLimit<Svc> {
    if layer {
        RateLimitLayer::new(num, per).layer(Svc::new())
    } else {
        RateLimit::new(Svc::new(), Rate::new(num, per))
    }
}
fn per() -> Duration {
    let p = duration_below(40);
    assume(p > Duration::ZERO);
    p
}
/// Time passes.
fn later() {
    clock::elapse(duration_below(40));
}
/// What the specification knows: the end of the current period and the calls left in it.
struct Spec {
    num: u64,
    per: Duration,
    end: Instant,
    left: u64,
}
impl Spec {
    fn new(num: u64, per: Duration) -> Spec {
        // no period is open yet
        Spec { num, per, end: peek(), left: num }
    }
    /// One readiness poll now, the wrapped service answers `x`; true: a call is allowed.
    fn poll(&mut self, s: &mut RateLimit<Svc>, cx: &mut Context<'_>, x: u8) -> bool {
        g().force_rdy = x;
        let (p0, r0) = (g().polls, registered());
        let r = s.poll_ready(cx);
        if self.left == 0 && peek() < self.end {
            assert!(r.is_pending(), "the number is used up: Pending until the period has ended");
            assert!(g().polls == p0, "limited: the service is not asked");
            assert!(registered() == r0 + 1, "limited: the task is registered with the timer");
            assert!(unsafe { clock::LAST_DEADLINE.v } == self.end.since_epoch(), "to be woken when the period ends");
            return false;
        }
        if self.left == 0 {
            self.end = peek() + self.per;
            self.left = self.num;
        }
        assert!(g().polls == p0 + 1 && same_ready(&r), "calls are left: readiness is the service's own");
        if x == 0 {
            assert!(registered() > r0, "pending: the task is registered");
        }
        let ok = matches!(r, Poll::Ready(Ok(())));
        forget(r);
        ok
    }
    fn call(&mut self, s: &mut RateLimit<Svc>) {
        if peek() >= self.end {
            self.end = peek() + self.per;
            self.left = self.num;
        }
        assert!(self.left > 0);
        self.left -= 1;
        let (n, q) = (g().calls, any());
        forget(s.call(q));
        assert!(g().calls == n + 1 && g().req[n] == q, "the request is forwarded once, unchanged");
    }
}

/// Any history of `rounds` readiness polls at any times, each Ready one followed by a call
/// (at a later time) when `c` says so.
fn history(num: u64, rounds: &[u8]) {
    cx!(w, cx);
    clock::set(duration_below(40));
    let per = per();
    let mut s = service(num, per, num == 2);
    let mut spec = Spec::new(num, per);
    for r in rounds {
        later();
        if spec.poll(&mut s, &mut cx, if *r == 0 { 0 } else { 1 }) && *r == 2 {
            later();
            spec.call(&mut s);
        }
    }
    forget(s);
}
// 2: poll, call; 1: poll only; 0: poll while the service is not ready
//@ proof fns="RateLimit::{new, poll_ready, call}, Rate::new" note="one call per period, any times and duration (start, duration and each gap below 2^40 s); a limited or ready poll at any point"
proof!(one, 6, { history(1, &[2, 2, 2]) });
//@ proof fns="RateLimit::{poll_ready, call}" note="one call per period; readiness polled without calling, then later calls"
proof!(one_idle, 6, { history(1, &[1, 2, 1, 1, 2]) });
//@ proof fns="RateLimit::{poll_ready, call}" note="one call per period; the service itself not ready when the period ends"
proof!(one_pending, 6, { history(1, &[0, 2, 0, 0, 2]) });
//@ proof fns="RateLimitLayer::layer, RateLimit::{poll_ready, call}" note="two calls per period"
proof!(two, 6, { history(2, &[2, 2, 2, 2]) });
//@ proof fns="RateLimitLayer::layer, RateLimit::{poll_ready, call}" note="two calls per period, with idle and pending polls between"
proof!(two_mixed, 6, { history(2, &[2, 1, 2, 0, 2]) });
//@ proof fns="RateLimit::{poll_ready, call}" note="three calls per period"
proof!(three, 7, { history(3, &[2, 2, 2, 2, 2]) });

//@ proof fns="RateLimit::poll_ready" note="an error of the service's readiness poll, fresh and after a limited period"
proof!(errors, 4, {
    cx!(w, cx);
    clock::set(duration_below(40));
    let per = per();
    let mut s = service(1, per, false);
    let mut spec = Spec::new(1, per);
    if any() {
        spec.poll(&mut s, &mut cx, 1);
        spec.call(&mut s);
        later();
        assume(peek() >= spec.end);
    }
    spec.poll(&mut s, &mut cx, 2);
    forget(s);
});

/// The state is what the specification says, for every number of calls.
#[cfg(tower_verif)]
fn general(num: u64, per: Duration) -> RateLimit<Svc> {
    let mut s = RateLimit::new(Svc::new(), Rate::new(num, per));
    s.get_mut().ready = any::<bool>() as u8;
    s
}
//@ proof hook fns="RateLimit::call" note="inductive step: any configured number, any state between calls, any time"
#[cfg(tower_verif)]
proof!(call_step, 3, {
    let (num, per): (u64, Duration) = (any(), per());
    assume(num > 0);
    clock::set(duration_below(40));
    let mut s = general(num, per);
    // invariant: 1 <= rem <= num
    let (until, rem) = (Instant::at(duration_below(40)), any());
    assume(1 <= rem && rem <= num);
    s.verif_set_ready(until, rem);
    s.get_mut().ready = 1;
    later();
    let now = peek();
    forget(s.call(any()));
    let (end, left) = if now >= until { (now + per, num - 1) } else { (until, rem - 1) };
    match s.verif_state() {
        Ok((u, r)) => assert!(left > 0 && u == end && r == left, "one call fewer in this period, or the first of a new one that starts now"),
        Err(d) => assert!(left == 0 && d == end, "the number is used up until the period ends"),
    }
    forget(s);
});
//@ proof hook fns="RateLimit::poll_ready" note="inductive step: any configured number, any state, any time, any readiness answer"
#[cfg(tower_verif)]
proof!(poll_step, 3, {
    cx!(w, cx);
    let (num, per): (u64, Duration) = (any(), per());
    assume(num > 0);
    clock::set(duration_below(40));
    let mut s = general(num, per);
    let until = Instant::at(duration_below(40));
    let limited: bool = any();
    let rem = any();
    if limited {
        s.verif_set_limited(until);
    } else {
        assume(1 <= rem && rem <= num);
        s.verif_set_ready(until, rem);
    }
    later();
    let now = peek();
    let (p0, r0) = (g().polls, registered());
    let r = s.poll_ready(&mut cx);
    if limited && now < until {
        assert!(r.is_pending() && g().polls == p0 && registered() == r0 + 1, "limited: Pending, registered with the timer");
        assert!(s.verif_state() == Err(until), "limited until the period ends");
    } else {
        assert!(g().polls == p0 + 1 && same_ready(&r), "otherwise the service's own readiness");
        match s.verif_state() {
            Ok((u, k)) if limited => assert!(u == now + per && k == num, "a new period starts with the full number"),
            Ok((u, k)) => assert!(u == until && k == rem, "readiness uses up nothing"),
            Err(_) => assert!(false, "available again"),
        }
    }
    forget((s, r));
});
