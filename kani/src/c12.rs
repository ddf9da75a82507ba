//! C12 backoff.
//! hooks: backoff
use crate::env::*;
use crate::proof;
use tower::retry::backoff::{Backoff, ExponentialBackoff, ExponentialBackoffMaker, MakeBackoff};
use tower::util::rng::Rng;

/// An arbitrary generator.
#[derive(Clone)]
struct Any;
impl Rng for Any {
    fn next_u64(&mut self) -> u64 {
        any()
    }
}
/// A generator with an arbitrary answer to next_f64 within its contract.
#[derive(Clone)]
struct AnyF;
impl Rng for AnyF {
    fn next_u64(&mut self) -> u64 {
        any()
    }
    fn next_f64(&mut self) -> f64 {
        let x = float();
        assume(x >= 0.0 && x < 1.0);
        x
    }
}
fn float() -> f64 {
    f64::from_bits(any())
}
/// The delay of the next backoff: the deadline of the timer it returns.
fn delay<B: Backoff<Future = tokio::time::Sleep>>(b: &mut B) -> Duration {
    let s = b.next_backoff();
    let d = s.deadline() - clock::peek();
    forget(s);
    d
}
fn valid(min: Duration, max: Duration, jitter: f64) -> bool {
    min <= max && !max.is_zero() && jitter >= 0.0 && jitter <= 100.0
}

//@ proof fns="ExponentialBackoffMaker::new" note="every min, max and jitter"
proof!(constructor, 3, {
    let (min, max, jitter) = (duration(), duration(), float());
    let r = ExponentialBackoffMaker::new(min, max, jitter, Any);
    cover!(r.is_ok(), "a valid combination");
    cover!(r.is_err(), "an invalid combination");
    assert!(r.is_ok() == valid(min, max, jitter), "exactly the documented combinations are accepted");
    forget(r);
});
/// A valid maker without jitter.
fn maker() -> (Duration, Duration, ExponentialBackoffMaker<Any>) {
    let (min, max) = (duration(), duration());
    assume(valid(min, max, 0.0));
    let m = match ExponentialBackoffMaker::new(min, max, 0.0, Any) {
        Ok(m) => m,
        Err(_) => panic!("a valid combination is accepted"),
    };
    (min, max, m)
}
//@ proof fns="MakeBackoff::make_backoff, ExponentialBackoff::next_backoff, ExponentialBackoff::base" note="any min and max, no jitter: the first four delays, of a second backoff of the same maker too"
proof!(first_delays, 8, {
    let (min, max, mut m) = maker();
    let mut b = m.make_backoff();
    assert!(delay(&mut b) == min, "the first delay is the minimum");
    assert!(delay(&mut b) == min.checked_mul(2).unwrap_or(max).min(max), "the delay doubles, capped at the maximum");
    assert!(delay(&mut b) == min.checked_mul(4).unwrap_or(max).min(max), "the delay doubles, capped at the maximum");
    assert!(delay(&mut b) == min.checked_mul(8).unwrap_or(max).min(max), "the delay doubles, capped at the maximum");
    let mut b = m.make_backoff();
    assert!(delay(&mut b) == min, "each backoff made starts from the minimum");
});
/// The subsecond parts used where the product is computed in full.
#[cfg(tower_verif)]
fn sample(n: u32) -> bool {
    n == 0 || n == 1 || n == 1_000_000 || n == 500_000_000 || n == 999_999_999
}
/// The n-th delay without jitter and the state after it.
#[cfg(tower_verif)]
macro_rules! case {
    ($name:ident, $unwind:literal, $n:literal) => {
        proof!($name, $unwind, {
            let (min, max, mut m) = maker();
            assume(sample(min.subsec_nanos()));
            let mut b = m.make_backoff();
            b.verif_set_iterations($n);
            let d = delay(&mut b);
            let f: u32 = 1u32 << $n;
            assert!(min <= d && d <= max, "the delay lies within [min, max]");
            assert!(d == min.checked_mul(f).unwrap_or(max).min(max), "the n-th delay is min times 2^n capped at max");
            assert!(b.verif_iterations() == $n + 1, "the next delay is the one after");
            forget(b);
        });
    };
}
//@ bounded hook fns="ExponentialBackoff::next_backoff, ExponentialBackoff::base" bound="delay number 0 exactly; sub-second part of min one of 0, 1, 10^6, 5*10^8, 10^9-1 ns"
#[cfg(tower_verif)]
case!(nth_delay_0, 8, 0);
//@ bounded hook fns="ExponentialBackoff::next_backoff, ExponentialBackoff::base" bound="delay number 1 exactly; sub-second part of min one of 0, 1, 10^6, 5*10^8, 10^9-1 ns"
#[cfg(tower_verif)]
case!(nth_delay_1, 8, 1);
//@ bounded hook fns="ExponentialBackoff::next_backoff, ExponentialBackoff::base" bound="delay number 2 exactly; sub-second part of min one of 0, 1, 10^6, 5*10^8, 10^9-1 ns"
#[cfg(tower_verif)]
case!(nth_delay_2, 8, 2);
//@ bounded hook fns="ExponentialBackoff::next_backoff, ExponentialBackoff::base" bound="delay number 3 exactly; sub-second part of min one of 0, 1, 10^6, 5*10^8, 10^9-1 ns"
#[cfg(tower_verif)]
case!(nth_delay_3, 8, 3);
//@ bounded hook fns="ExponentialBackoff::next_backoff, ExponentialBackoff::base" bound="delay number 4 exactly; sub-second part of min one of 0, 1, 10^6, 5*10^8, 10^9-1 ns"
#[cfg(tower_verif)]
case!(nth_delay_4, 8, 4);
//@ bounded hook fns="ExponentialBackoff::next_backoff, ExponentialBackoff::base" bound="delay number 5 exactly; sub-second part of min one of 0, 1, 10^6, 5*10^8, 10^9-1 ns"
#[cfg(tower_verif)]
case!(nth_delay_5, 8, 5);
//@ bounded hook fns="ExponentialBackoff::next_backoff, ExponentialBackoff::base" bound="delay number 6 exactly; sub-second part of min one of 0, 1, 10^6, 5*10^8, 10^9-1 ns"
#[cfg(tower_verif)]
case!(nth_delay_6, 8, 6);
//@ bounded hook fns="ExponentialBackoff::next_backoff, ExponentialBackoff::base" bound="delay number 7 exactly; sub-second part of min one of 0, 1, 10^6, 5*10^8, 10^9-1 ns"
#[cfg(tower_verif)]
case!(nth_delay_7, 8, 7);
//@ bounded hook fns="ExponentialBackoff::next_backoff, ExponentialBackoff::base" bound="delay number 8 exactly; sub-second part of min one of 0, 1, 10^6, 5*10^8, 10^9-1 ns"
#[cfg(tower_verif)]
case!(nth_delay_8, 8, 8);
//@ bounded hook fns="ExponentialBackoff::next_backoff, ExponentialBackoff::base" bound="delay number 9 exactly; sub-second part of min one of 0, 1, 10^6, 5*10^8, 10^9-1 ns"
#[cfg(tower_verif)]
case!(nth_delay_9, 8, 9);
//@ bounded hook fns="ExponentialBackoff::next_backoff, ExponentialBackoff::base" bound="delay number 10 exactly; sub-second part of min one of 0, 1, 10^6, 5*10^8, 10^9-1 ns"
#[cfg(tower_verif)]
case!(nth_delay_10, 8, 10);
//@ bounded hook fns="ExponentialBackoff::next_backoff, ExponentialBackoff::base" bound="delay number 11 exactly; sub-second part of min one of 0, 1, 10^6, 5*10^8, 10^9-1 ns"
#[cfg(tower_verif)]
case!(nth_delay_11, 8, 11);
//@ bounded hook fns="ExponentialBackoff::next_backoff, ExponentialBackoff::base" bound="delay number 12 exactly; sub-second part of min one of 0, 1, 10^6, 5*10^8, 10^9-1 ns"
#[cfg(tower_verif)]
case!(nth_delay_12, 8, 12);
//@ bounded hook fns="ExponentialBackoff::next_backoff, ExponentialBackoff::base" bound="delay number 13 exactly; sub-second part of min one of 0, 1, 10^6, 5*10^8, 10^9-1 ns"
#[cfg(tower_verif)]
case!(nth_delay_13, 8, 13);
//@ bounded hook fns="ExponentialBackoff::next_backoff, ExponentialBackoff::base" bound="delay number 14 exactly; sub-second part of min one of 0, 1, 10^6, 5*10^8, 10^9-1 ns"
#[cfg(tower_verif)]
case!(nth_delay_14, 8, 14);
//@ bounded hook fns="ExponentialBackoff::next_backoff, ExponentialBackoff::base" bound="delay number 15 exactly; sub-second part of min one of 0, 1, 10^6, 5*10^8, 10^9-1 ns"
#[cfg(tower_verif)]
case!(nth_delay_15, 8, 15);
//@ bounded hook fns="ExponentialBackoff::next_backoff, ExponentialBackoff::base" bound="delay number 16 exactly; sub-second part of min one of 0, 1, 10^6, 5*10^8, 10^9-1 ns"
#[cfg(tower_verif)]
case!(nth_delay_16, 8, 16);
//@ bounded hook fns="ExponentialBackoff::next_backoff, ExponentialBackoff::base" bound="delay number 17 exactly; sub-second part of min one of 0, 1, 10^6, 5*10^8, 10^9-1 ns"
#[cfg(tower_verif)]
case!(nth_delay_17, 8, 17);
//@ bounded hook fns="ExponentialBackoff::next_backoff, ExponentialBackoff::base" bound="delay number 18 exactly; sub-second part of min one of 0, 1, 10^6, 5*10^8, 10^9-1 ns"
#[cfg(tower_verif)]
case!(nth_delay_18, 8, 18);
//@ bounded hook fns="ExponentialBackoff::next_backoff, ExponentialBackoff::base" bound="delay number 19 exactly; sub-second part of min one of 0, 1, 10^6, 5*10^8, 10^9-1 ns"
#[cfg(tower_verif)]
case!(nth_delay_19, 8, 19);
//@ bounded hook fns="ExponentialBackoff::next_backoff, ExponentialBackoff::base" bound="delay number 20 exactly; sub-second part of min one of 0, 1, 10^6, 5*10^8, 10^9-1 ns"
#[cfg(tower_verif)]
case!(nth_delay_20, 8, 20);
//@ bounded hook fns="ExponentialBackoff::next_backoff, ExponentialBackoff::base" bound="delay number 21 exactly; sub-second part of min one of 0, 1, 10^6, 5*10^8, 10^9-1 ns"
#[cfg(tower_verif)]
case!(nth_delay_21, 8, 21);
//@ bounded hook fns="ExponentialBackoff::next_backoff, ExponentialBackoff::base" bound="delay number 22 exactly; sub-second part of min one of 0, 1, 10^6, 5*10^8, 10^9-1 ns"
#[cfg(tower_verif)]
case!(nth_delay_22, 8, 22);
//@ bounded hook fns="ExponentialBackoff::next_backoff, ExponentialBackoff::base" bound="delay number 23 exactly; sub-second part of min one of 0, 1, 10^6, 5*10^8, 10^9-1 ns"
#[cfg(tower_verif)]
case!(nth_delay_23, 8, 23);
//@ bounded hook fns="ExponentialBackoff::next_backoff, ExponentialBackoff::base" bound="delay number 24 exactly; sub-second part of min one of 0, 1, 10^6, 5*10^8, 10^9-1 ns"
#[cfg(tower_verif)]
case!(nth_delay_24, 8, 24);
//@ bounded hook fns="ExponentialBackoff::next_backoff, ExponentialBackoff::base" bound="delay number 25 exactly; sub-second part of min one of 0, 1, 10^6, 5*10^8, 10^9-1 ns"
#[cfg(tower_verif)]
case!(nth_delay_25, 8, 25);
//@ bounded hook fns="ExponentialBackoff::next_backoff, ExponentialBackoff::base" bound="delay number 26 exactly; sub-second part of min one of 0, 1, 10^6, 5*10^8, 10^9-1 ns"
#[cfg(tower_verif)]
case!(nth_delay_26, 8, 26);
//@ bounded hook fns="ExponentialBackoff::next_backoff, ExponentialBackoff::base" bound="delay number 27 exactly; sub-second part of min one of 0, 1, 10^6, 5*10^8, 10^9-1 ns"
#[cfg(tower_verif)]
case!(nth_delay_27, 8, 27);
//@ bounded hook fns="ExponentialBackoff::next_backoff, ExponentialBackoff::base" bound="delay number 28 exactly; sub-second part of min one of 0, 1, 10^6, 5*10^8, 10^9-1 ns"
#[cfg(tower_verif)]
case!(nth_delay_28, 8, 28);
//@ bounded hook fns="ExponentialBackoff::next_backoff, ExponentialBackoff::base" bound="delay number 29 exactly; sub-second part of min one of 0, 1, 10^6, 5*10^8, 10^9-1 ns"
#[cfg(tower_verif)]
case!(nth_delay_29, 8, 29);
//@ bounded hook fns="ExponentialBackoff::next_backoff, ExponentialBackoff::base" bound="delay number 30 exactly; sub-second part of min one of 0, 1, 10^6, 5*10^8, 10^9-1 ns"
#[cfg(tower_verif)]
case!(nth_delay_30, 8, 30);
//@ bounded hook fns="ExponentialBackoff::next_backoff, ExponentialBackoff::base" bound="delay number 31 exactly; sub-second part of min one of 0, 1, 10^6, 5*10^8, 10^9-1 ns"
#[cfg(tower_verif)]
case!(nth_delay_31, 8, 31);
//@ bounded hook fns="ExponentialBackoff::next_backoff, ExponentialBackoff::base" bound="every delay from number 32 on, exactly, for min of 1 ns, 50 ms, 1 s, 10^6 s and 10^17 s, any max"
#[cfg(tower_verif)]
proof!(nth_delay_later, 8, {
    later(Duration::from_nanos(1));
    later(Duration::from_millis(50));
    later(Duration::from_secs(1));
    later(Duration::from_secs(1_000_000));
    later(Duration::from_secs(100_000_000_000_000_000));
});
#[cfg(tower_verif)]
fn later(min: Duration) {
    let max = duration();
    assume(valid(min, max, 0.0));
    let mut m = match ExponentialBackoffMaker::new(min, max, 0.0, Any) {
        Ok(m) => m,
        Err(_) => panic!("a valid combination is accepted"),
    };
    let mut b = m.make_backoff();
    let n: u32 = any();
    assume(n >= 32);
    b.verif_set_iterations(n);
    let d = delay(&mut b);
    assert!(d == min.checked_mul(u32::MAX).unwrap_or(max).min(max), "the factor stays at its largest");
    assert!(b.verif_iterations() > n || n == u32::MAX, "the next delay is a later one");
    forget(b);
}
//@ proof fns="ExponentialBackoff::next_backoff, ExponentialBackoff::jitter" note="any valid parameters, any generator output: the first delay"
proof!(jitter_first, 8, {
    let (min, max, jitter) = (duration(), duration(), float());
    assume(valid(min, max, jitter));
    let mut m = match ExponentialBackoffMaker::new(min, max, jitter, AnyF) {
        Ok(m) => m,
        Err(_) => panic!("a valid combination is accepted"),
    };
    let mut b = m.make_backoff();
    let d = delay(&mut b);
    assert!(min <= d && d <= max, "the delay lies within [min, max]");
});
//@ proof fns="ExponentialBackoff::next_backoff, ExponentialBackoff::jitter" note="any valid parameters, any generator output: the second delay"
proof!(jitter_second, 8, {
    let (min, max, jitter) = (duration(), duration(), float());
    assume(valid(min, max, jitter));
    let mut m = match ExponentialBackoffMaker::new(min, max, jitter, AnyF) {
        Ok(m) => m,
        Err(_) => panic!("a valid combination is accepted"),
    };
    let mut b = m.make_backoff();
    let _ = delay(&mut b);
    let d = delay(&mut b);
    assert!(d >= min.checked_mul(2).unwrap_or(max).min(max), "jitter only adds");
    assert!(d <= max, "up to the maximum");
});

//@ proof hook fns="ExponentialBackoff::next_backoff, ExponentialBackoff::base" note="any min and max, no jitter, any number of delays before"
#[cfg(tower_verif)]
proof!(range, 8, {
    let (min, max, mut m) = maker();
    let mut b = m.make_backoff();
    let n: u32 = any();
    b.verif_set_iterations(n);
    let d = delay(&mut b);
    assert!(min <= d && d <= max, "the delay lies within [min, max]");
    assert!(b.verif_iterations() > n || n == u32::MAX, "the next delay is a later one");
    forget(b);
});
