//! C22 hedge latencies.
//! hooks: hedge rotating_histogram
use crate::env::*;
use crate::{cx, proof};
use tokio::time::{peek, Instant};
use tower::hedge::{Hedge, Policy};

// ---- the rotating histogram ------------------------------------------------------
/// Any state; `k` periods (and a part of one) after the last rotation the data are used.
#[cfg(tower_verif)]
fn rotation(period: Duration, k: u64, write: bool) {
    let mut h = tower::hedge::VerifHistogram::new(period);
    let t0 = Duration::from_secs(1000);
    let (r, w): (u64, u64) = (any(), any());
    assume(r < 1 << 40 && w < 1 << 40);
    h.set(Instant::at(t0), r, w);
    let n: u32 = any();
    assume(n < 1_000_000_000 && Duration::new(0, n) < period);
    let start = t0 + Duration::from_nanos(period.as_nanos() as u64 * k);
    clock::set(start + Duration::new(0, n));
    let (er, ew) = match k {
        0 => (r, w),
        1 => (w, 0),
        _ => (0, 0),
    };
    if write {
        h.record(7);
        assert!(h.lens() == (er, ew + 1), "recorded into the current period");
    } else {
        assert!(h.read_len() == er, "what is read is exactly what the previous period recorded");
        assert!(h.lens() == (er, ew), "what is read is exactly what the previous period recorded");
    }
    assert!(h.last() == Instant::at(start), "the boundaries of the periods do not drift");
    forget(h);
}
//@ proof hook fns="RotatingHistogram::{write, maybe_rotate, rotate, clear}" note="period Duration::from_secs(1): any contents; 0 periods and any part (below 1 s) of one after the last rotation"
#[cfg(tower_verif)]
proof!(write_sec_0, 20, { rotation(Duration::from_secs(1), 0, true); });
//@ proof hook fns="RotatingHistogram::{read, maybe_rotate, rotate, clear}" note="period Duration::from_secs(1): any contents; 0 periods and any part (below 1 s) of one after the last rotation"
#[cfg(tower_verif)]
proof!(read_sec_0, 20, { rotation(Duration::from_secs(1), 0, false); });
//@ proof hook fns="RotatingHistogram::{write, maybe_rotate, rotate, clear}" note="period Duration::from_secs(1): any contents; 1 periods and any part (below 1 s) of one after the last rotation"
#[cfg(tower_verif)]
proof!(write_sec_1, 20, { rotation(Duration::from_secs(1), 1, true); });
//@ proof hook fns="RotatingHistogram::{read, maybe_rotate, rotate, clear}" note="period Duration::from_secs(1): any contents; 1 periods and any part (below 1 s) of one after the last rotation"
#[cfg(tower_verif)]
proof!(read_sec_1, 20, { rotation(Duration::from_secs(1), 1, false); });
//@ proof hook fns="RotatingHistogram::{write, maybe_rotate, rotate, clear}" note="period Duration::from_secs(1): any contents; 2 periods and any part (below 1 s) of one after the last rotation"
#[cfg(tower_verif)]
proof!(write_sec_2, 20, { rotation(Duration::from_secs(1), 2, true); });
//@ proof hook fns="RotatingHistogram::{read, maybe_rotate, rotate, clear}" note="period Duration::from_secs(1): any contents; 2 periods and any part (below 1 s) of one after the last rotation"
#[cfg(tower_verif)]
proof!(read_sec_2, 20, { rotation(Duration::from_secs(1), 2, false); });
//@ proof hook thorough fns="RotatingHistogram::{write, maybe_rotate, rotate, clear}" note="period Duration::from_secs(1): any contents; 3 periods and any part (below 1 s) of one after the last rotation"
#[cfg(feature = "thorough")]
#[cfg(tower_verif)]
proof!(write_sec_3, 20, { rotation(Duration::from_secs(1), 3, true); });
//@ proof hook thorough fns="RotatingHistogram::{read, maybe_rotate, rotate, clear}" note="period Duration::from_secs(1): any contents; 3 periods and any part (below 1 s) of one after the last rotation"
#[cfg(feature = "thorough")]
#[cfg(tower_verif)]
proof!(read_sec_3, 20, { rotation(Duration::from_secs(1), 3, false); });
//@ proof hook fns="RotatingHistogram::{write, maybe_rotate, rotate, clear}" note="period Duration::from_secs(1): any contents; 1000 periods and any part (below 1 s) of one after the last rotation"
#[cfg(tower_verif)]
proof!(write_sec_1000, 20, { rotation(Duration::from_secs(1), 1000, true); });
//@ proof hook fns="RotatingHistogram::{read, maybe_rotate, rotate, clear}" note="period Duration::from_secs(1): any contents; 1000 periods and any part (below 1 s) of one after the last rotation"
#[cfg(tower_verif)]
proof!(read_sec_1000, 20, { rotation(Duration::from_secs(1), 1000, false); });
//@ proof hook thorough fns="RotatingHistogram::{read, maybe_rotate, rotate, clear}" note="period Duration::from_millis(1): any contents; 0 periods and any part (below 1 s) of one after the last rotation"
#[cfg(feature = "thorough")]
#[cfg(tower_verif)]
proof!(read_milli_0, 20, { rotation(Duration::from_millis(1), 0, false); });
//@ proof hook thorough fns="RotatingHistogram::{read, maybe_rotate, rotate, clear}" note="period Duration::from_millis(1): any contents; 1 periods and any part (below 1 s) of one after the last rotation"
#[cfg(feature = "thorough")]
#[cfg(tower_verif)]
proof!(read_milli_1, 20, { rotation(Duration::from_millis(1), 1, false); });
//@ proof hook thorough fns="RotatingHistogram::{read, maybe_rotate, rotate, clear}" note="period Duration::from_millis(1): any contents; 2 periods and any part (below 1 s) of one after the last rotation"
#[cfg(feature = "thorough")]
#[cfg(tower_verif)]
proof!(read_milli_2, 20, { rotation(Duration::from_millis(1), 2, false); });
//@ proof hook fns="RotatingHistogram::{read, maybe_rotate, rotate, clear}" note="period Duration::from_millis(1): any contents; 3 periods and any part (below 1 s) of one after the last rotation"
#[cfg(tower_verif)]
proof!(read_milli_3, 20, { rotation(Duration::from_millis(1), 3, false); });
//@ proof hook thorough fns="RotatingHistogram::{read, maybe_rotate, rotate, clear}" note="period Duration::from_millis(1): any contents; 4294967295 periods and any part (below 1 s) of one after the last rotation"
#[cfg(feature = "thorough")]
#[cfg(tower_verif)]
proof!(read_milli_4294967295, 20, { rotation(Duration::from_millis(1), 4294967295, false); });
//@ proof hook fns="RotatingHistogram::{read, maybe_rotate, rotate, clear}" note="period Duration::from_millis(1): any contents; 4294967296 periods and any part (below 1 s) of one after the last rotation"
#[cfg(tower_verif)]
proof!(read_milli_4294967296, 20, { rotation(Duration::from_millis(1), 4294967296, false); });
//@ proof hook thorough fns="RotatingHistogram::{read, maybe_rotate, rotate, clear}" note="period Duration::from_millis(1): any contents; 4294967297 periods and any part (below 1 s) of one after the last rotation"
#[cfg(feature = "thorough")]
#[cfg(tower_verif)]
proof!(read_milli_4294967297, 20, { rotation(Duration::from_millis(1), 4294967297, false); });
//@ proof hook thorough fns="RotatingHistogram::{read, maybe_rotate, rotate, clear}" note="period Duration::from_nanos(1): any contents; 0 periods and any part (below 1 s) of one after the last rotation"
#[cfg(feature = "thorough")]
#[cfg(tower_verif)]
proof!(read_nano_0, 20, { rotation(Duration::from_nanos(1), 0, false); });
//@ proof hook thorough fns="RotatingHistogram::{read, maybe_rotate, rotate, clear}" note="period Duration::from_nanos(1): any contents; 1 periods and any part (below 1 s) of one after the last rotation"
#[cfg(feature = "thorough")]
#[cfg(tower_verif)]
proof!(read_nano_1, 20, { rotation(Duration::from_nanos(1), 1, false); });
//@ proof hook thorough fns="RotatingHistogram::{read, maybe_rotate, rotate, clear}" note="period Duration::from_nanos(1): any contents; 2 periods and any part (below 1 s) of one after the last rotation"
#[cfg(feature = "thorough")]
#[cfg(tower_verif)]
proof!(read_nano_2, 20, { rotation(Duration::from_nanos(1), 2, false); });
//@ proof hook fns="RotatingHistogram::{read, maybe_rotate, rotate, clear}" note="period Duration::from_nanos(1): any contents; 5 periods and any part (below 1 s) of one after the last rotation"
#[cfg(tower_verif)]
proof!(read_nano_5, 20, { rotation(Duration::from_nanos(1), 5, false); });
//@ proof hook thorough fns="RotatingHistogram::{write, maybe_rotate, rotate, clear}" note="period Duration::new(7, 300_000_001): any contents; 0 periods and any part (below 1 s) of one after the last rotation"
#[cfg(feature = "thorough")]
#[cfg(tower_verif)]
proof!(write_odd_0, 20, { rotation(Duration::new(7, 300_000_001), 0, true); });
//@ proof hook fns="RotatingHistogram::{read, maybe_rotate, rotate, clear}" note="period Duration::new(7, 300_000_001): any contents; 0 periods and any part (below 1 s) of one after the last rotation"
#[cfg(tower_verif)]
proof!(read_odd_0, 20, { rotation(Duration::new(7, 300_000_001), 0, false); });
//@ proof hook fns="RotatingHistogram::{write, maybe_rotate, rotate, clear}" note="period Duration::new(7, 300_000_001): any contents; 1 periods and any part (below 1 s) of one after the last rotation"
#[cfg(tower_verif)]
proof!(write_odd_1, 20, { rotation(Duration::new(7, 300_000_001), 1, true); });
//@ proof hook fns="RotatingHistogram::{read, maybe_rotate, rotate, clear}" note="period Duration::new(7, 300_000_001): any contents; 1 periods and any part (below 1 s) of one after the last rotation"
#[cfg(tower_verif)]
proof!(read_odd_1, 20, { rotation(Duration::new(7, 300_000_001), 1, false); });
//@ proof hook thorough fns="RotatingHistogram::{write, maybe_rotate, rotate, clear}" note="period Duration::new(7, 300_000_001): any contents; 2 periods and any part (below 1 s) of one after the last rotation"
#[cfg(feature = "thorough")]
#[cfg(tower_verif)]
proof!(write_odd_2, 20, { rotation(Duration::new(7, 300_000_001), 2, true); });
//@ proof hook fns="RotatingHistogram::{read, maybe_rotate, rotate, clear}" note="period Duration::new(7, 300_000_001): any contents; 2 periods and any part (below 1 s) of one after the last rotation"
#[cfg(tower_verif)]
proof!(read_odd_2, 20, { rotation(Duration::new(7, 300_000_001), 2, false); });
//@ proof hook thorough fns="RotatingHistogram::{write, maybe_rotate, rotate, clear}" note="period Duration::new(7, 300_000_001): any contents; 9 periods and any part (below 1 s) of one after the last rotation"
#[cfg(feature = "thorough")]
#[cfg(tower_verif)]
proof!(write_odd_9, 20, { rotation(Duration::new(7, 300_000_001), 9, true); });
//@ proof hook fns="RotatingHistogram::{read, maybe_rotate, rotate, clear}" note="period Duration::new(7, 300_000_001): any contents; 9 periods and any part (below 1 s) of one after the last rotation"
#[cfg(tower_verif)]
proof!(read_odd_9, 20, { rotation(Duration::new(7, 300_000_001), 9, false); });
//@ proof hook thorough fns="RotatingHistogram::{read, maybe_rotate, rotate, clear}" note="period Duration::from_secs(3600): any contents; 0 periods and any part (below 1 s) of one after the last rotation"
#[cfg(feature = "thorough")]
#[cfg(tower_verif)]
proof!(read_hour_0, 20, { rotation(Duration::from_secs(3600), 0, false); });
//@ proof hook thorough fns="RotatingHistogram::{read, maybe_rotate, rotate, clear}" note="period Duration::from_secs(3600): any contents; 1 periods and any part (below 1 s) of one after the last rotation"
#[cfg(feature = "thorough")]
#[cfg(tower_verif)]
proof!(read_hour_1, 20, { rotation(Duration::from_secs(3600), 1, false); });
//@ proof hook fns="RotatingHistogram::{read, maybe_rotate, rotate, clear}" note="period Duration::from_secs(3600): any contents; 2 periods and any part (below 1 s) of one after the last rotation"
#[cfg(tower_verif)]
proof!(read_hour_2, 20, { rotation(Duration::from_secs(3600), 2, false); });
//@ proof hook fns="RotatingHistogram::{read, maybe_rotate, rotate, clear}" note="period Duration::from_secs(3600): any contents; 100 periods and any part (below 1 s) of one after the last rotation"
#[cfg(tower_verif)]
proof!(read_hour_100, 20, { rotation(Duration::from_secs(3600), 100, false); });

//@ proof hook fns="hedge::millis" note="every duration below 2^32 s"
#[cfg(tower_verif)]
proof!(millis, 3, {
    let (secs, nanos): (u32, u32) = (any(), any());
    assume(nanos < 1_000_000_000);
    let m = tower::hedge::verif_millis(Duration::new(secs as u64, nanos));
    let w = secs as u64 * 1000;
    assert!(m >= w && m - w <= 1000, "whole milliseconds");
    let part = (m - w) as u32;
    assert!(part * 1_000_000 >= nanos, "rounded up");
    assert!(part == 0 || (part - 1) * 1_000_000 < nanos, "rounded up to the next one only");
});
//@ proof hook fns="hedge::millis" note="the longest durations"
#[cfg(tower_verif)]
proof!(millis_max, 3, {
    let nanos: u32 = any();
    assume(nanos < 1_000_000_000);
    assert!(tower::hedge::verif_millis(Duration::new(u64::MAX, nanos)) == u64::MAX, "cut off, not wrapped around");
    assert!(tower::hedge::verif_millis(Duration::new(u64::MAX / 1000, nanos)) >= u64::MAX - 1000, "cut off, not wrapped around");
});

// ---- through the hedging service ----------------------------------------------------
#[derive(Clone)]
struct All;
impl Policy<u8> for All {
    fn clone_request(&self, r: &u8) -> Option<u8> {
        Some(*r)
    }
    fn can_retry(&self, _: &u8) -> bool {
        true
    }
}
const PERIOD: Duration = Duration::from_secs(1);
/// A call now: `Some(delay of the hedge)`, None when too little was recorded.
fn hedged(h: &mut Hedge<Svc, All>, cx: &mut Context<'_>) -> Option<Duration> {
    g().force_rdy = 1;
    forget(h.poll_ready(cx));
    let n = unsafe { clock::SLEEPS.v };
    forget(h.call(0));
    if unsafe { clock::SLEEPS.v } == n {
        return None;
    }
    Some(unsafe { clock::LAST_DEADLINE.v } - peek().since_epoch())
}
/// A request that takes `lat` and ends as `x` says.
fn request(h: &mut Hedge<Svc, All>, lat: Duration, x: u8, cx: &mut Context<'_>) {
    g().force_rdy = 1;
    forget(h.poll_ready(cx));
    let mut f = h.call(0);
    clock::elapse(lat);
    g().force_fut = x;
    if x != 0 {
        forget(poll(&mut f, cx));
    }
    drop(f);
}
/// A request of the period that starts now, `k` periods later the data read.
fn used(k: u64, x: u8) {
    cx!(w, cx);
    clock::set(Duration::from_secs(1000));
    let mut h = Hedge::new(Svc::new(), All, 1, 1.0, PERIOD);
    let n: u32 = any();
    assume(1 <= n && n < 500_000_000);
    request(&mut h, Duration::new(0, n), x, &mut cx);
    let m: u32 = any();
    assume(m < 500_000_000);
    clock::set(Duration::new(1000 + k, if k == 0 { 500_000_000 + m } else { m }));
    match hedged(&mut h, &mut cx) {
        None => assert!(k != 1 || x != 1, "a successful response is used during the following period"),
        Some(d) => {
            assert!(k == 1, "and only then");
            assert!(x == 1, "only successful responses are recorded");
            assert!(d >= Duration::new(0, n) && d < Duration::new(0, n) + Duration::from_millis(1), "rounded up to whole milliseconds");
        }
    }
    forget(h);
}
//@ proof fns="Hedge::{new, call}, Latency::call, latency::ResponseFuture::poll, <Histo as Record>::record, RotatingHistogram::{read, write}" note="a successful response in the first half of a one-second period, a call at any time of half a period 0 later"
proof!(used_ok_0, 20, { used(0, 1); });
//@ proof fns="Hedge::{new, call}, Latency::call, latency::ResponseFuture::poll, <Histo as Record>::record, RotatingHistogram::{read, write}" note="a successful response in the first half of a one-second period, a call at any time of half a period 1 later"
proof!(used_ok_1, 20, { used(1, 1); });
//@ proof fns="Hedge::{new, call}, Latency::call, latency::ResponseFuture::poll, <Histo as Record>::record, RotatingHistogram::{read, write}" note="a successful response in the first half of a one-second period, a call at any time of half a period 2 later"
proof!(used_ok_2, 20, { used(2, 1); });
//@ proof thorough fns="Hedge::{new, call}, Latency::call, latency::ResponseFuture::poll, <Histo as Record>::record, RotatingHistogram::{read, write}" note="a successful response in the first half of a one-second period, a call at any time of half a period 3 later"
#[cfg(feature = "thorough")]
proof!(used_ok_3, 20, { used(3, 1); });
//@ proof fns="latency::ResponseFuture::poll" note="a failed response"
proof!(used_err_1, 20, { used(1, 2); });
//@ proof fns="latency::ResponseFuture::poll" note="an abandoned request"
proof!(used_pending_1, 20, { used(1, 0); });
