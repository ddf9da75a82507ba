//! C18 peak EWMA.
//! trusted: f64::exp of a number that is not positive lies in [0, 1], and exp(0) is 1 (stub)
use crate::env::*;
use crate::{cx, proof};
use tower::load::peak_ewma::Cost;
use tower::load::{CompleteOnResponse, Load, PeakEwma};

/// Any decay factor the exponential may produce.
pub fn exp(x: f64) -> f64 {
    assert!(x <= 0.0, "the estimate is never scaled up");
    let e = f64::from_bits(any());
    assume(0.0 <= e && e <= 1.0 && (x != 0.0 || e == 1.0));
    e
}
/// One half, unless no time passed.
pub fn exp_half(x: f64) -> f64 {
    assert!(x <= 0.0, "the estimate is never scaled up");
    if x == 0.0 {
        1.0
    } else {
        0.5
    }
}
/// Only asked when no time passed.
pub fn exp_one(x: f64) -> f64 {
    assert!(x == 0.0, "the estimate decays by the time since its last update");
    1.0
}
/// Only the argument is checked.
pub fn exp_arg(x: f64) -> f64 {
    assert!(x <= 0.0, "the estimate is never scaled up");
    1.0
}
nd::ghost! { static ARG: f64 = 1.0; }
/// Records the exponent.
pub fn exp_rec(x: f64) -> f64 {
    unsafe { ARG.v = x }
    0.5
}
/// `Cost` is opaque: the load of an idle service whose estimate is `d` now.
fn cost(d: Duration) -> Cost {
    let p = PeakEwma::new((), d, 1.0, CompleteOnResponse::default());
    let c = p.load();
    forget(p);
    c
}
const NS: Duration = Duration::from_nanos(1);
/// Any number of nanoseconds below 2^bits (at most 29).
fn ns(bits: u32) -> Duration {
    let n: u32 = any();
    assume(n < 1 << bits);
    Duration::new(0, n)
}
/// Any duration of less than 2^20 seconds.
fn long() -> Duration {
    duration_below(20)
}
fn start(old: Duration) -> PeakEwma<Svc> {
    clock::set(Duration::from_secs(1000));
    PeakEwma::new(Svc::new(), old, 1.0e9, CompleteOnResponse::default())
}
/// A request made after `gap` that ends (completed, failed or abandoned) after `lat`.
fn request(s: &mut PeakEwma<Svc>, gap: Duration, lat: Duration) {
    cx!(w, cx);
    g().force_rdy = 1;
    clock::elapse(gap);
    forget(s.poll_ready(&mut cx));
    let q = any();
    let mut f = s.call(q);
    assert!(g().calls == 1 && g().req[0] == q, "the request is passed through");
    clock::elapse(lat);
    if let Poll::Ready(r) = poll(&mut f, &mut cx) {
        assert!(same(0, &r), "the response is passed through");
    } else {
        assert!(!done(0), "pending while the response is");
    }
    drop(f);
}
//@ proof fns="PeakEwma::{new, call, load}, TrackCompletionFuture::poll, Handle::drop, RttEstimate::update" note="any latency above any estimate, any time since the last update (each below 2^28 ns)"
proof!(peak, 3, stub(f64::exp, exp_one), {
    let (old, lat) = (ns(28), ns(28));
    assume(old >= NS && lat > old);
    let mut s = start(old);
    request(&mut s, ns(28), lat);
    assert!(s.load() == cost(lat), "a latency above the estimate becomes the estimate at once");
    forget(s);
});
fn mean(old: Duration, lat: Duration) {
    let mut s = start(old);
    request(&mut s, Duration::from_secs(1), lat);
    let l = s.load();
    // (compared with a tolerance of a nanosecond: the mean is rounded)
    assert!(l <= cost(old + NS), "a lower latency: the estimate stays between the latency and the old estimate");
    assert!(l >= cost(lat - NS), "a lower latency: the estimate stays between the latency and the old estimate");
    forget(s);
}
//@ proof bounded fns="PeakEwma::{new, call, load}, Handle::drop, RttEstimate::update" note="bounded: an estimate of 10 ms and a latency of 3 ms; any decay factor"
proof!(mean_10_3, 3, stub(f64::exp, exp), {
    mean(Duration::from_millis(10), Duration::from_millis(3));
});
//@ proof bounded fns="PeakEwma::{new, call, load}, Handle::drop, RttEstimate::update" note="bounded: an estimate of 1 s and a latency of 777777777 ns; any decay factor"
proof!(mean_1s, 3, stub(f64::exp, exp), {
    mean(Duration::from_secs(1), Duration::from_nanos(777_777_777));
});
//@ proof bounded fns="PeakEwma::{new, call, load}, Handle::drop, RttEstimate::update" note="bounded: any estimate and lower latency below 2^20 ns; decay factor one half"
proof!(mean_half, 3, stub(f64::exp, exp_half), {
    let (old, lat) = (ns(20), ns(20));
    assume(old >= NS * 2 && lat >= NS * 2 && lat <= old);
    mean(old, lat);
});
//@ proof bounded fns="RttEstimate::{update, decay}, PeakEwma::load" note="bounded: an estimate of 10 ms; any decay factor"
proof!(decays, 3, stub(f64::exp, exp), {
    let s = start(Duration::from_millis(10));
    clock::elapse(Duration::from_secs(1));
    let a = s.load();
    assert!(a <= cost(Duration::from_millis(10)), "without traffic the estimate only decays");
    assert!(a >= cost(NS) || a < cost(NS), "a number");
    forget(s);
});
//@ proof fns="RttEstimate::update, PeakEwma::load" note="any time since the last update and any finite decay period: the exponent is a number that is not positive"
proof!(exponent, 3, stub(f64::exp, exp_arg), {
    clock::set(Duration::from_secs(1000));
    let decay = f64::from_bits(any());
    assume(decay > 0.0 && decay.is_finite());
    let s = PeakEwma::new((), Duration::from_secs(1), decay, CompleteOnResponse::default());
    clock::elapse(long());
    let _ = s.load();
    forget(s);
});
//@ proof fns="PeakEwma::{load, call}" note="0 to 3 requests outstanding, any estimate below 2^29 ns: the load is the estimate times one more"
proof!(outstanding, 3, stub(f64::exp, exp_one), {
    cx!(w, cx);
    g().force_rdy = 1;
    let d = ns(29);
    assume(d >= NS);
    let mut s = start(d);
    assert!(s.load() == cost(d), "no request outstanding");
    forget(s.poll_ready(&mut cx));
    forget(s.call(0));
    assert!(s.load() == cost(d * 2), "one request outstanding");
    forget(s.poll_ready(&mut cx));
    forget(s.call(0));
    assert!(s.load() == cost(d * 3), "two requests outstanding");
    forget(s);
});
//@ proof fns="PeakEwma::poll_ready" note="any answer"
proof!(readiness, 3, {
    cx!(w, cx);
    let mut s = PeakEwma::new(Svc::new(), NS, 1.0, CompleteOnResponse::default());
    let r0 = registered();
    let r = s.poll_ready(&mut cx);
    assert!(same_ready(&r), "readiness is passed through");
    assert!(!r.is_pending() || registered() > r0, "pending: the task is registered");
    forget((s, r));
});

use tower::load::{peak_ewma::Handle, TrackCompletion};
#[derive(Clone)]
struct Keep;
impl TrackCompletion<Handle, u8> for Keep {
    type Output = (Handle, u8);
    fn track_completion(&self, h: Handle, v: u8) -> (Handle, u8) {
        (h, v)
    }
}
//@ proof fns="PeakEwma::call, TrackCompletionFuture::poll, Handle::drop" note="custom tracking: the latency ends when the handle is dropped"
proof!(tracked, 3, stub(f64::exp, exp_one), {
    cx!(w, cx);
    g().force_rdy = 1;
    g().force_fut = 1;
    clock::set(Duration::from_secs(1000));
    let mut s = PeakEwma::new(Svc::new(), NS, 1.0e9, Keep);
    forget(s.poll_ready(&mut cx));
    let mut f = s.call(0);
    let (a, b) = (ns(20), ns(20));
    assume(b >= NS * 2);
    clock::elapse(a);
    match poll(&mut f, &mut cx) {
        Poll::Ready(Ok((h, v))) => {
            assert!(v == g().val[0], "the value is handed to the tracker, with the handle");
            drop(f);
            clock::elapse(b);
            drop(h);
            assert!(s.load() == cost(a + b), "the latency runs from the call to the drop of the handle");
        }
        _ => assert!(false, "the response is passed through"),
    }
    forget(s);
});

//@ proof fns="PeakEwma::call, Handle::drop, RttEstimate::update" note="two overlapping requests (times below 2^20 ns) that end at the same instant: the second one finds the estimate just updated"
proof!(overlapping, 3, stub(f64::exp, exp_one), {
    cx!(w, cx);
    g().force_rdy = 1;
    let (x, y) = (ns(20), ns(20));
    assume(x >= NS * 2 && y >= NS * 2);
    let mut s = start(NS);
    forget(s.poll_ready(&mut cx));
    let a = s.call(0);
    clock::elapse(x);
    forget(s.poll_ready(&mut cx));
    let b = s.call(0);
    clock::elapse(y);
    drop(a);
    drop(b);
    assert!(s.load() == cost(x + y), "the latency that raised the estimate stands: a lower one has no weight until time passes");
    forget(s);
});
/// The decay exponent at the end of `b`, for `a` from 0 to `ta` and `b` from `sb` to `ta + db` ns, decay in ns.
fn weight(sb: u64, ta: u64, db: u64, decay: f64) {
    cx!(w, cx);
    g().force_rdy = 1;
    clock::set(Duration::from_secs(1000));
    let mut s = PeakEwma::new(Svc::new(), NS, decay, CompleteOnResponse::default());
    forget(s.poll_ready(&mut cx));
    let a = s.call(0);
    clock::elapse(Duration::from_nanos(sb));
    forget(s.poll_ready(&mut cx));
    let b = s.call(0);
    clock::elapse(Duration::from_nanos(ta - sb));
    drop(a);
    clock::elapse(Duration::from_nanos(db));
    drop(b);
    let x = unsafe { ARG.v };
    let off = x * decay + db as f64;
    assert!(-1.0 <= off && off <= 1.0, "a lower latency is weighted by the time since the estimate was last updated, over the decay period");
    clock::elapse(Duration::from_nanos(sb));
    let _ = s.load();
    let off = unsafe { ARG.v } * decay + sb as f64;
    assert!(-1.0 <= off && off <= 1.0, "without traffic: the estimate decays by the time since its last update");
    forget(s);
}
//@ proof bounded fns="PeakEwma::{call, load}, Handle::drop, RttEstimate::{update, decay}" note="bounded: two overlapping requests at fixed times, decay 1 s: the weight"
proof!(weight_1s, 3, stub(f64::exp, exp_rec), {
    weight(100_000_000, 900_000_000, 50_000_000, 1.0e9);
});
//@ proof bounded fns="PeakEwma::{call, load}, Handle::drop, RttEstimate::{update, decay}" note="bounded: two overlapping requests at fixed times, decay 10 ms: the weight"
proof!(weight_10ms, 3, stub(f64::exp, exp_rec), {
    weight(90_000_000, 123_000_000, 77_000_001, 1.0e7);
});
