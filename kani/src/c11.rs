//! C11 retry budget.
//! hooks: tps_budget
use crate::env::*;
use crate::proof;
use tokio::time::{peek, Instant};
use tower::retry::budget::{Budget, TpsBudget};

const W: Duration = Duration::from_millis(100);
const TTL: Duration = Duration::from_secs(1);

// ---- the amounts -----------------------------------------------------------------
/// The cost `w` of a withdrawal and the worth `d` of a deposit for a percentage `p`.
#[cfg(tower_verif)]
fn percentage(p: f32) {
    let b = TpsBudget::new(TTL, 1, p);
    let (reserve, window, d, w) = b.verif_amounts();
    assert!(window == W, "a slot is a tenth of the time-to-live");
    assert!(w >= 1 && d >= 0, "a withdrawal costs something");
    if p == 0.0 {
        assert!(d == 0, "with no percentage a deposit is worth nothing");
    } else {
        // d / w is p, with the cost w rounded down to a whole number
        let (df, wf, pf) = (d as f64, w as f64, p as f64);
        assert!(wf * pf <= df * 1.000001 && (w == isize::MAX || (wf + 1.0) * pf > df * 0.999999), "a deposit is worth the configured percentage of a withdrawal");
    }
    assert!(reserve == w, "the reserve is the minimum rate times the time-to-live");
    forget(b);
}
//@ proof hook fns="TpsBudget::new" note="eight percentages from 0 to 1000"
#[cfg(tower_verif)]
proof!(percentages, 12, {
    percentage(0.0);
    percentage(0.01);
    percentage(0.1);
    percentage(0.3);
    percentage(1.0);
    percentage(1.5);
    percentage(2.0);
    percentage(1000.0);
});
//@ proof hook fns="TpsBudget::new" note="any percentage from 0.02 to 1"
#[cfg(tower_verif)]
proof!(percentage_low, 12, {
    let p = f32::from_bits(any());
    assume(p >= 0.02 && p <= 1.0);
    percentage(p);
});
//@ proof hook fns="TpsBudget::new" note="any percentage above 1"
#[cfg(tower_verif)]
proof!(percentage_high, 12, {
    let p = f32::from_bits(any());
    assume(p > 1.0 && p <= 1000.0);
    percentage(p);
});
//@ proof hook fns="TpsBudget::new" note="any minimum rate and time-to-live"
#[cfg(tower_verif)]
proof!(reserve, 12, {
    let (min, secs, nanos): (u32, u8, u32) = (any(), any(), any());
    assume(min < i32::MAX as u32 && nanos < 1_000_000_000);
    assume(1 <= secs && secs <= 60 && (secs < 60 || nanos == 0));
    let ttl = Duration::new(secs as u64, nanos);
    let b = TpsBudget::new(ttl, min, 0.5);
    let (reserve, window, d, w) = b.verif_amounts();
    assert!(d == 1 && w == 2);
    assert!(reserve == (min as isize) * (secs as isize) * 2, "the reserve is the minimum rate times the time-to-live");
    assert!(window <= Duration::from_secs(6) && window >= W && window.as_secs() <= secs as u64 / 10, "a slot is a tenth of the time-to-live");
    if nanos == 0 {
        assert!(window == Duration::from_millis(secs as u64 * 100), "a slot is a tenth of the time-to-live");
    }
    forget(b);
});

// ---- one step from any state -------------------------------------------------------
#[cfg(tower_verif)]
const LIM: isize = 1 << 50;
#[cfg(tower_verif)]
fn amount() -> isize {
    let x: isize = any();
    assume(-LIM <= x && x <= LIM);
    x
}
#[cfg(tower_verif)]
fn positive() -> isize {
    let x: isize = any();
    assume(0 <= x && x <= LIM);
    x
}
/// A part of a slot.
#[cfg(tower_verif)]
fn frac() -> Duration {
    let n: u32 = any();
    assume(n < W.subsec_nanos());
    Duration::new(0, n)
}
/// A budget in which `ages[i]` was deposited (less what was withdrawn) `i` slots before the
/// current one.
#[cfg(tower_verif)]
fn budget(t0: Duration, index: usize, ages: [isize; 11]) -> TpsBudget {
    let mut b = TpsBudget::new(TTL, 0, 1.0);
    let mut slots = [0isize; 10];
    let mut i = 0;
    while i < 10 {
        // the slot before `index` is the last complete one
        slots[i] = ages[1 + (index + 9 - i) % 10];
        i += 1;
    }
    b.verif_set(ages[0], slots, index, Instant::at(t0));
    b
}
//@ proof hook fns="TpsBudget::{withdraw, try_get, sum, expire}" note="any amounts in any slot below 2^50, reserve and cost; within the current slot"
#[cfg(tower_verif)]
proof!(covers_cost, 14, {
    let mut a = [0isize; 11];
    let mut sum = 0;
    let mut i = 11;
    while i > 0 {
        i -= 1;
        a[i] = amount();
    }
    let mut i = 10;
    while i > 0 {
        sum += a[i];
        i -= 1;
    }
    let t0 = Duration::from_secs(1000);
    let mut b = budget(t0, 0, a);
    let (reserve, cost) = (positive(), positive());
    b.verif_config(reserve, W, 0, cost);
    clock::set(t0 + Duration::from_millis(99));
    let sum = a[0] + sum + reserve;
    let ok = b.withdraw();
    assert!(ok == (sum >= cost), "a withdrawal succeeds exactly when the reserve and what still counts cover its cost");
    forget(b);
});
#[cfg(tower_verif)]
fn two_ops(dep_first: bool) {
    let (c, p) = (amount(), amount());
    let t0 = Duration::from_secs(1000);
    let mut b = budget(t0, 0, [c, 0, p, 0, 0, 0, 0, 0, 0, 0, 0]);
    let (reserve, cost, dep) = (positive(), positive(), positive());
    b.verif_config(reserve, W, dep, cost);
    clock::set(t0);
    let sum = c + p + reserve;
    let mut left = sum;
    if dep_first {
        b.deposit();
        left = c + dep + p + reserve;
    } else if b.withdraw() {
        assert!(sum >= cost, "a withdrawal is covered");
        left = c - cost + p + reserve;
    } else {
        assert!(sum < cost, "a withdrawal is refused only if not covered");
    }
    let ok = b.withdraw();
    assert!(ok == (left >= cost), "a withdrawal costs its cost, a deposit is worth its worth, a refusal changes nothing");
    forget(b);
}
//@ proof hook fns="TpsBudget::{withdraw, deposit, try_get, put, sum, expire}" note="a deposit and a withdrawal after each other in one slot: any amounts (one other slot in use), reserve, cost and worth"
#[cfg(tower_verif)]
proof!(deposit_withdraw, 14, { two_ops(true) });
//@ proof hook fns="TpsBudget::{withdraw, try_get, sum, expire}" note="two withdrawals after each other in one slot: any amounts (one other slot in use), reserve and cost"
#[cfg(tower_verif)]
proof!(two_withdrawals, 14, { two_ops(false) });

/// Distinct powers of two in every slot, so that the balance tells what is counted; `k1` slots
/// later an operation, `k2` slots after it a withdrawal of any cost.
#[cfg(tower_verif)]
fn step(k1: u32, k2: u32, index: usize) {
    let t0 = Duration::from_secs(1000);
    let mut b = budget(t0, index, [1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024]);
    b.verif_config(0, W, 1 << 12, 1 << 11);
    let f1 = frac();
    clock::set(t0 + W * k1 + f1);
    // what is still counted after `k` slots
    let counted = |k: u32| if k > 10 { 0 } else { (1isize << (11 - k)) - 1 };
    b.deposit();
    let f2 = frac();
    assume(k2 > 0 || f2 >= f1);
    clock::set(t0 + W * (k1 + k2) + f2);
    let cost = positive();
    b.verif_config(0, W, 1 << 12, cost);
    let ok = b.withdraw();
    let left = counted(k1 + k2) + if k2 <= 10 { 1 << 12 } else { 0 };
    assert!(ok == (left >= cost), "counted: everything of the current slot and of the ten before it, nothing older");
    forget(b);
}
//@ proof hook fns="TpsBudget::{deposit, withdraw, expire}"
#[cfg(tower_verif)]
proof!(t_0_0, 14, { step(0, 0, 0) });
//@ proof hook fns="TpsBudget::{deposit, withdraw, expire}"
#[cfg(tower_verif)]
proof!(t_1_0, 14, { step(1, 0, 9) });
//@ proof hook fns="TpsBudget::{deposit, withdraw, expire}"
#[cfg(tower_verif)]
proof!(t_1_1, 14, { step(1, 1, 3) });
//@ proof hook fns="TpsBudget::{deposit, withdraw, expire}"
#[cfg(tower_verif)]
proof!(t_1_10, 14, { step(1, 10, 2) });
//@ proof hook fns="TpsBudget::{deposit, withdraw, expire}"
#[cfg(tower_verif)]
proof!(t_3_9, 14, { step(3, 9, 8) });
//@ proof hook fns="TpsBudget::{deposit, withdraw, expire}"
#[cfg(tower_verif)]
proof!(t_10_1, 14, { step(10, 1, 0) });
//@ proof hook fns="TpsBudget::{deposit, withdraw, expire}"
#[cfg(tower_verif)]
proof!(t_11_0, 14, { step(11, 0, 5) });

// ---- whole histories through the public interface ----------------------------------
/// A deposit of half a withdrawal, accesses at the given gaps (ms), then a second deposit:
/// the withdrawal succeeds exactly if the first one still counts.
fn life(gaps: &[u64]) {
    let b = TpsBudget::new(TTL, 0, 0.5);
    let t0 = peek();
    b.deposit();
    for g in gaps {
        clock::elapse(Duration::from_millis(*g));
        assert!(!b.withdraw(), "half a withdrawal does not cover one");
    }
    let n: u32 = any();
    assume(n < 300_000_000);
    clock::elapse(Duration::new(0, n));
    let age = peek() - t0;
    b.deposit();
    let ok = b.withdraw();
    if age <= TTL {
        assert!(ok, "a deposit counts for the time-to-live");
    }
    if age >= TTL + W {
        assert!(!ok, "a deposit stops counting after the time-to-live and one slot");
    }
    forget(b);
}
//@ proof fns="TpsBudget::{new, deposit, withdraw, expire}" note="accesses after 101, 101, 101, 101, 101, 101, 101, 101 ms and any time up to 300 ms later"
proof!(life_busy, 14, { life(&[101, 101, 101, 101, 101, 101, 101, 101]); });
//@ proof fns="TpsBudget::{new, deposit, withdraw, expire}" note="accesses after 199, 150, 100, 199, 199 ms and any time up to 300 ms later"
proof!(life_uneven, 14, { life(&[199, 150, 100, 199, 199]); });
//@ proof fns="TpsBudget::{new, deposit, withdraw, expire}" note="accesses after 500, 450 ms and any time up to 300 ms later"
proof!(life_sparse, 14, { life(&[500, 450]); });
//@ proof fns="TpsBudget::{new, deposit, withdraw, expire}" note="accesses after 850 ms and any time up to 300 ms later"
proof!(life_idle, 14, { life(&[850]); });
fn withdrawals(dep: bool) {
    let b = TpsBudget::new(TTL, 2, 1.0);
    assert!(b.withdraw(), "covered by the reserve");
    clock::elapse(Duration::from_millis(150));
    if dep {
        b.deposit();
    }
    assert!(b.withdraw(), "covered by the reserve");
    assert!(b.withdraw() == dep, "the reserve is used up, a deposit is not");
    assert!(!b.withdraw(), "all used up");
    forget(b);
}
//@ proof fns="TpsBudget::{new, withdraw}" note="a reserve of two, withdrawals in different slots"
proof!(withdrawals_reserve, 14, { withdrawals(false); });
//@ proof fns="TpsBudget::{new, deposit, withdraw}" note="a reserve of two and a deposit, withdrawals in different slots"
proof!(withdrawals_deposit, 14, { withdrawals(true); });
//@ proof fns="TpsBudget::{new, deposit, withdraw}" note="a reserve of two, used up; again after the time-to-live and a slot, not before the time-to-live"
proof!(reserve_returns, 14, {
    let b = TpsBudget::new(TTL, 2, 1.0);
    assert!(b.withdraw() && b.withdraw(), "covered by the reserve");
    clock::elapse(Duration::from_millis(1000));
    assert!(!b.withdraw(), "withdrawals count for the time-to-live");
    clock::elapse(Duration::from_millis(100));
    assert!(b.withdraw(), "after the time-to-live only the reserve is left");
    assert!(b.withdraw(), "after the time-to-live only the reserve is left");
    assert!(!b.withdraw(), "after the time-to-live only the reserve is left");
    forget(b);
});
