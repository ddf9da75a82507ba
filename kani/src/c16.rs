//! C16 Ready cache: every key is pending or ready as its service says, and none is lost.
//! kind: other
use crate::env::*;
use crate::{cx, proof};
use tower::ready_cache::{error::Failed, ReadyCache};

use crate::ep::*;

type C = ReadyCache<u64, Ep, u8>;
fn cache() -> C {
    unsafe { futures_util::stream::futures_unordered::ALL_WAKE.v = true };
    ReadyCache::default()
}
/// 0 absent, 1 pending, 2 ready, 3 ready with a newer one pending
fn at(c: &C, k: u64) -> u8 {
    let p = c.pending_contains(&k);
    match c.get_ready(&k) {
        Some(_) if p => 3,
        Some(_) => 2,
        None if p => 1,
        None => 0,
    }
}
fn inst(c: &C, k: u64) -> u8 {
    match c.get_ready(&k) {
        Some((i, q, s)) => {
            assert!(*q == k);
            match c.get_ready_index(i) {
                Some((q2, s2)) => assert!(*q2 == k && s2.svc.inst == s.svc.inst),
                None => panic!("the index of a ready service"),
            }
            s.svc.inst
        }
        None => 99,
    }
}
/// 0 Pending, 1 Ok, 2 Failed(k) with the error of its service
fn poll_pending(c: &mut C, cx: &mut Context<'_>) -> (u8, u64) {
    let r0 = registered();
    let r = c.poll_pending(cx);
    let x = match &r {
        Poll::Pending => {
            assert!(registered() > r0, "pending: the task is registered");
            (0, 0)
        }
        Poll::Ready(Ok(())) => (1, 0),
        Poll::Ready(Err(Failed(k, e))) => {
            assert!(is_err_of(e, g().last_inst), "the error of the service");
            (2, *k)
        }
    };
    forget(r);
    x
}
fn polled(ans: u8) {
    cx!(w, cx);
    g().ans[0] = ans;
    let mut c = cache();
    c.push(7, Ep::new());
    assert!(at(&c, 7) == 1 && c.len() == 1 && c.pending_len() == 1 && c.ready_len() == 0 && g().polls == 0);
    let r = poll_pending(&mut c, &mut cx);
    assert!(g().polls == 1);
    match ans {
        0 => assert!(r.0 == 0 && at(&c, 7) == 1 && c.len() == 1),
        1 => assert!(r.0 == 1 && at(&c, 7) == 2 && inst(&c, 7) == 0 && c.len() == 1 && c.ready_len() == 1),
        _ => assert!(r == (2, 7) && at(&c, 7) == 0 && c.is_empty() && g().gone[0]),
    }
    forget(c);
}
//@ bounded bound="one service" fns="ReadyCache::{push, push_pending, poll_pending, len, pending_len, ready_len, pending_contains, get_ready, get_ready_index}, Pending::poll"
proof!(polled_pending, 6, { polled(0) });
//@ bounded bound="one service" fns="ReadyCache::{push, push_pending, poll_pending, len, pending_len, ready_len, pending_contains, get_ready, get_ready_index}, Pending::poll"
proof!(polled_ready, 6, { polled(1) });
//@ bounded bound="one service" fns="ReadyCache::{push, push_pending, poll_pending, len, pending_len, ready_len, pending_contains, get_ready, get_ready_index}, Pending::poll"
proof!(polled_failed, 6, { polled(2) });

// ---- two services ------------------------------------------------------------

/// Two services answer `a` and `b`: all combinations.
fn two(a: u8, b: u8) {
    cx!(w, cx);
    g().ans[0] = a;
    g().ans[1] = b;
    let mut c = cache();
    c.push(7, Ep::new());
    c.push(8, Ep::new());
    // every failure is reported, once
    let fails = (a == 2) as u8 + (b == 2) as u8;
    let (mut f7, mut f8) = (0, 0);
    let mut i = 0;
    while i < fails {
        let r = poll_pending(&mut c, &mut cx);
        assert!(r.0 == 2, "a failed service is reported");
        f7 += (r.1 == 7) as u8;
        f8 += (r.1 == 8) as u8;
        i += 1;
    }
    assert!(f7 == (a == 2) as u8 && f8 == (b == 2) as u8, "each failure with the key of its service");
    let last = poll_pending(&mut c, &mut cx).0;
    assert!(last != 2, "... once");
    assert!((last == 0) == (a == 0 || b == 0), "pending exactly when a service is");
    assert!(at(&c, 7) == [1, 2, 0][a as usize] && at(&c, 8) == [1, 2, 0][b as usize]);
    assert!(c.ready_len() == (a == 1) as usize + (b == 1) as usize);
    assert!(c.pending_len() == (a == 0) as usize + (b == 0) as usize);
    assert!(c.len() == c.ready_len() + c.pending_len());
    if a == 1 {
        assert!(inst(&c, 7) == 0);
    }
    if b == 1 {
        assert!(inst(&c, 8) == 1);
    }
    assert!(!g().gone[0] == (a != 2) && !g().gone[1] == (b != 2));
    forget(c);
}
//@ bounded bound="two services" fns="ReadyCache::{push, poll_pending, len, pending_len, ready_len, pending_contains, get_ready, get_ready_index}, Pending::poll"
proof!(two_00, 8, { two(0, 0) });
//@ bounded bound="two services" fns="ReadyCache::{push, poll_pending, len, pending_len, ready_len, pending_contains, get_ready, get_ready_index}, Pending::poll"
proof!(two_01, 8, { two(0, 1) });
//@ bounded bound="two services" fns="ReadyCache::{push, poll_pending, len, pending_len, ready_len, pending_contains, get_ready, get_ready_index}, Pending::poll"
proof!(two_02, 8, { two(0, 2) });
//@ bounded bound="two services" fns="ReadyCache::{push, poll_pending, len, pending_len, ready_len, pending_contains, get_ready, get_ready_index}, Pending::poll"
proof!(two_10, 8, { two(1, 0) });
//@ bounded bound="two services" fns="ReadyCache::{push, poll_pending, len, pending_len, ready_len, pending_contains, get_ready, get_ready_index}, Pending::poll"
proof!(two_11, 8, { two(1, 1) });
//@ bounded bound="two services" fns="ReadyCache::{push, poll_pending, len, pending_len, ready_len, pending_contains, get_ready, get_ready_index}, Pending::poll"
proof!(two_12, 8, { two(1, 2) });
//@ bounded bound="two services" fns="ReadyCache::{push, poll_pending, len, pending_len, ready_len, pending_contains, get_ready, get_ready_index}, Pending::poll"
proof!(two_20, 8, { two(2, 0) });
//@ bounded bound="two services" fns="ReadyCache::{push, poll_pending, len, pending_len, ready_len, pending_contains, get_ready, get_ready_index}, Pending::poll"
proof!(two_21, 8, { two(2, 1) });
//@ bounded bound="two services" fns="ReadyCache::{push, poll_pending, len, pending_len, ready_len, pending_contains, get_ready, get_ready_index}, Pending::poll"
proof!(two_22, 8, { two(2, 2) });

// ---- checking and calling ready services -----------------------------------------

/// Services 0 and 1 ready under keys 7 and 8 (and 2 under 9).
fn ready_cache(n: u8, cx: &mut Context<'_>) -> C {
    let mut c = cache();
    let mut i = 0;
    while i < n {
        g().ans[i as usize] = 1;
        c.push(7 + i as u64, Ep::new());
        i += 1;
    }
    assert!(poll_pending(&mut c, cx).0 == 1 && c.ready_len() == n as usize && c.pending_len() == 0);
    c
}
/// The other keys are untouched.
fn others(c: &C, n: u8, k: u64) {
    let mut i = 0;
    while i < n {
        if 7 + i as u64 != k {
            assert!(at(c, 7 + i as u64) == 2 && inst(c, 7 + i as u64) == i && !g().gone[i as usize], "the others are untouched");
        }
        i += 1;
    }
}
fn checked(k: u64, ans: u8, by_index: bool) {
    cx!(w, cx);
    let mut c = ready_cache(2, &mut cx);
    let i = (k - 7) as usize;
    g().ans[i] = ans;
    let p = g().polls_of;
    let r = if by_index {
        let at = c.get_ready(&k).unwrap().0;
        c.check_ready_index(&mut cx, at)
    } else {
        c.check_ready(&mut cx, &k)
    };
    assert!(g().polls_of[i] == p[i] + 1 && g().polls_of[1 - i] == p[1 - i], "exactly this service is asked");
    match &r {
        Ok(x) => assert!(*x == (ans == 1) && ans != 2),
        Err(Failed(q, e)) => assert!(ans == 2 && *q == k && is_err_of(e, g().last_inst), "the error comes with its key"),
    }
    forget(r);
    assert!(at(&c, k) == [1, 2, 0][ans as usize], "pending again, ready, or removed");
    others(&c, 2, k);
    assert!(g().gone[i] == (ans == 2), "the failed one is dropped");
    if ans == 0 {
        g().ans[i] = 1;
        assert!(poll_pending(&mut c, &mut cx).0 == 1 && at(&c, k) == 2 && inst(&c, k) == i as u8, "the same service becomes ready again");
        others(&c, 2, k);
    }
    forget(c);
}
//@ bounded bound="two ready services" fns="ReadyCache::{check_ready, check_ready_index, push_pending, poll_pending, get_ready}, Pending::poll"
proof!(checked_7_0, 8, { checked(7, 0, true) });
//@ bounded bound="two ready services" fns="ReadyCache::{check_ready, check_ready_index, push_pending, poll_pending, get_ready}, Pending::poll"
proof!(checked_7_1, 8, { checked(7, 1, false) });
//@ bounded bound="two ready services" fns="ReadyCache::{check_ready, check_ready_index, push_pending, poll_pending, get_ready}, Pending::poll"
proof!(checked_7_2, 8, { checked(7, 2, true) });
//@ bounded bound="two ready services" fns="ReadyCache::{check_ready, check_ready_index, push_pending, poll_pending, get_ready}, Pending::poll"
proof!(checked_8_0, 8, { checked(8, 0, false) });
//@ bounded bound="two ready services" fns="ReadyCache::{check_ready, check_ready_index, push_pending, poll_pending, get_ready}, Pending::poll"
proof!(checked_8_1, 8, { checked(8, 1, true) });
//@ bounded bound="two ready services" fns="ReadyCache::{check_ready, check_ready_index, push_pending, poll_pending, get_ready}, Pending::poll"
proof!(checked_8_2, 8, { checked(8, 2, false) });
//@ bounded bound="one ready service" fns="ReadyCache::{check_ready, check_ready_index}" note="keys and indices that are not ready"
proof!(checked_absent, 8, {
    cx!(w, cx);
    let mut c = ready_cache(1, &mut cx);
    c.push(9, Ep::new());
    let p = g().polls;
    assert!(matches!(c.check_ready(&mut cx, &8), Ok(false)), "an absent key is not ready");
    assert!(matches!(c.check_ready(&mut cx, &9), Ok(false)), "nor is a pending one");
    assert!(matches!(c.check_ready_index(&mut cx, 1), Ok(false)));
    assert!(g().polls == p && at(&c, 7) == 2 && at(&c, 9) == 1);
    forget(c);
});

fn called(k: u64, by_index: bool) {
    cx!(w, cx);
    let mut c = ready_cache(2, &mut cx);
    let i = (k - 7) as usize;
    let q: u8 = any();
    let f = if by_index {
        let at = c.get_ready(&k).unwrap().0;
        c.call_ready_index(at, q)
    } else {
        c.call_ready(&k, q)
    };
    assert!(g().calls == 1 && g().req[0] == q && g().inst[0] == i as u8, "the request goes to the service of the key");
    assert!(f.0.t == 0);
    assert!(at(&c, k) == 1 && c.len() == 2, "called: pending again under the same key");
    others(&c, 2, k);
    assert!(poll_pending(&mut c, &mut cx).0 == 1 && at(&c, k) == 2 && inst(&c, k) == i as u8, "the same service becomes ready again");
    others(&c, 2, k);
    assert!(!g().gone[0] && !g().gone[1] && g().calls == 1);
    forget((c, f));
}
//@ bounded bound="two ready services" fns="ReadyCache::{call_ready, call_ready_index, push_pending, poll_pending, get_ready}, Pending::poll"
proof!(called_7, 8, { called(7, false) });
//@ bounded bound="two ready services" fns="ReadyCache::{call_ready, call_ready_index, push_pending, poll_pending, get_ready}, Pending::poll"
proof!(called_8, 8, { called(8, true) });

// ---- replacing and evicting ---------------------------------------------------------

//@ bounded bound="one key" fns="ReadyCache::{push, push_pending, poll_pending}, Pending::poll, CancelTx::cancel" note="a pending service is replaced: the old one is never asked again, the new one takes its place"
proof!(replace_pending, 8, {
    cx!(w, cx);
    g().ans[0] = 0;
    g().ans[1] = 1;
    let mut c = cache();
    c.push(7, Ep::new());
    assert!(poll_pending(&mut c, &mut cx).0 == 0);
    c.push(7, Ep::new());
    g().ans[0] = 1;
    assert!(poll_pending(&mut c, &mut cx).0 == 1);
    assert!(g().polls_of[0] == 1 && g().gone[0], "the replaced service is dropped and not asked again");
    assert!(at(&c, 7) == 2 && inst(&c, 7) == 1 && c.len() == 1);
    forget(c);
});
//@ bounded bound="one key" fns="ReadyCache::{push, push_pending, poll_pending}, Pending::poll, CancelTx::cancel" note="... before it was ever polled, and the new one fails"
proof!(replace_unpolled, 8, {
    cx!(w, cx);
    g().ans[0] = 1;
    g().ans[1] = 2;
    let mut c = cache();
    c.push(7, Ep::new());
    c.push(7, Ep::new());
    let r = poll_pending(&mut c, &mut cx);
    assert!(r == (2, 7) && g().polls_of[0] == 0 && g().gone[0] && at(&c, 7) == 0, "at most one service per key");
    assert!(poll_pending(&mut c, &mut cx).0 == 1 && c.is_empty() && g().gone[1]);
    forget(c);
});
/// The key has a ready service when a newer one is pushed (pending so far).
fn newer(cx: &mut Context<'_>) -> C {
    let mut c = ready_cache(2, cx);
    g().ans[2] = 0;
    c.push(7, Ep::new());
    assert!(poll_pending(&mut c, cx).0 == 0);
    assert!(at(&c, 7) == 3 && inst(&c, 7) == 0 && c.len() == 3, "the old one serves until the new one is ready");
    others(&c, 2, 7);
    c
}
//@ bounded bound="two ready services and a newer one" fns="ReadyCache::{push, poll_pending}" note="the newer one replaces the ready one when it becomes ready"
proof!(newer_ready, 8, {
    cx!(w, cx);
    let mut c = newer(&mut cx);
    g().ans[2] = 1;
    assert!(poll_pending(&mut c, &mut cx).0 == 1);
    assert!(at(&c, 7) == 2 && inst(&c, 7) == 2 && g().gone[0] && c.ready_len() == 2);
    others(&c, 2, 7);
    forget(c);
});
//@ bounded bound="two ready services and a newer one" fns="ReadyCache::{push, poll_pending}" note="the newer one fails: reported with its key, the old one goes on"
proof!(newer_fails, 8, {
    cx!(w, cx);
    let mut c = newer(&mut cx);
    g().ans[2] = 2;
    assert!(poll_pending(&mut c, &mut cx) == (2, 7));
    assert!(at(&c, 7) == 2 && inst(&c, 7) == 0 && g().gone[2] && !g().gone[0]);
    others(&c, 2, 7);
    forget(c);
});
//@ bounded bound="two ready services and a newer one" fns="ReadyCache::{call_ready, push_pending, poll_pending}" note="the old one is called: it does not come back, the newer one stays"
proof!(newer_and_call, 8, {
    cx!(w, cx);
    let mut c = newer(&mut cx);
    let q: u8 = any();
    let f = c.call_ready(&7, q);
    assert!(g().calls == 1 && g().req[0] == q && g().inst[0] == 0);
    assert!(at(&c, 7) == 1 && g().gone[0] && !g().gone[2]);
    g().ans[2] = 1;
    assert!(poll_pending(&mut c, &mut cx).0 == 1 && inst(&c, 7) == 2 && c.len() == 2);
    others(&c, 2, 7);
    forget((c, f));
});
//@ bounded bound="two ready services and a newer one" fns="ReadyCache::{check_ready, push_pending, poll_pending}" note="the old one is found not ready: it does not overwrite the newer one"
proof!(newer_and_check, 8, {
    cx!(w, cx);
    let mut c = newer(&mut cx);
    g().ans[0] = 0;
    assert!(matches!(c.check_ready(&mut cx, &7), Ok(false)));
    assert!(at(&c, 7) == 1 && g().gone[0] && !g().gone[2]);
    g().ans[2] = 1;
    assert!(poll_pending(&mut c, &mut cx).0 == 1 && inst(&c, 7) == 2 && c.len() == 2);
    others(&c, 2, 7);
    forget(c);
});
//@ bounded bound="two services" fns="ReadyCache::{evict, poll_pending}, Pending::poll, CancelTx::cancel" note="a pending service is evicted: it is not asked again and dropped at the next poll"
proof!(evict_pending, 8, {
    cx!(w, cx);
    g().ans[0] = 0;
    g().ans[1] = 0;
    let mut c = cache();
    c.push(7, Ep::new());
    c.push(8, Ep::new());
    assert!(poll_pending(&mut c, &mut cx).0 == 0);
    assert!(c.evict(&7), "it was there");
    assert!(at(&c, 7) == 0);
    assert!(!c.evict(&7), "and is not any more");
    g().ans[0] = 1;
    assert!(poll_pending(&mut c, &mut cx).0 == 0);
    assert!(g().polls_of[0] == 1 && g().gone[0] && at(&c, 7) == 0 && at(&c, 8) == 1 && c.len() == 1);
    forget(c);
});
//@ bounded bound="three ready services" fns="ReadyCache::evict" note="a ready service is evicted: it is dropped at once, the others stay"
proof!(evict_ready, 8, {
    cx!(w, cx);
    let mut c = ready_cache(3, &mut cx);
    assert!(!c.evict(&6), "never there");
    assert!(c.evict(&7));
    assert!(at(&c, 7) == 0 && g().gone[0] && c.len() == 2);
    others(&c, 3, 7);
    assert!(!c.evict(&7));
    forget(c);
});
//@ bounded bound="two ready services and a newer one" fns="ReadyCache::{evict, poll_pending}, Pending::poll" note="both the ready service and the newer pending one go"
proof!(evict_both, 8, {
    cx!(w, cx);
    let mut c = newer(&mut cx);
    assert!(c.evict(&7));
    assert!(at(&c, 7) == 0 && g().gone[0]);
    g().ans[2] = 1;
    let p = g().polls_of[2];
    assert!(poll_pending(&mut c, &mut cx).0 == 1);
    assert!(at(&c, 7) == 0 && g().polls_of[2] == p && g().gone[2] && c.len() == 1);
    others(&c, 2, 7);
    forget(c);
});
//@ bounded bound="one key" fns="ReadyCache::{evict, push, poll_pending}, Pending::poll" note="evicted while pending and pushed again: the new service is not affected"
proof!(evict_and_push, 8, {
    cx!(w, cx);
    g().ans[0] = 0;
    g().ans[1] = 1;
    let mut c = cache();
    c.push(7, Ep::new());
    assert!(poll_pending(&mut c, &mut cx).0 == 0);
    assert!(c.evict(&7));
    c.push(7, Ep::new());
    assert!(poll_pending(&mut c, &mut cx).0 == 1);
    assert!(at(&c, 7) == 2 && inst(&c, 7) == 1 && g().gone[0] && c.len() == 1);
    forget(c);
});
//@ bounded bound="one key" fns="ReadyCache::{call_ready, evict, poll_pending}, Pending::poll" note="called and evicted before it is ready again: it does not come back"
proof!(call_and_evict, 8, {
    cx!(w, cx);
    let mut c = ready_cache(1, &mut cx);
    let f = c.call_ready(&7, any());
    let p = g().polls_of[0];
    assert!(c.evict(&7) && at(&c, 7) == 0);
    assert!(poll_pending(&mut c, &mut cx).0 == 1);
    assert!(at(&c, 7) == 0 && c.is_empty() && g().polls_of[0] == p && g().gone[0]);
    forget((c, f));
});
//@ bounded bound="one key" fns="CancelTx::cancel, AtomicWaker" note="a service evicted or replaced while it waits is woken to be dropped: it must not linger until something else happens"
proof!(evict_wakes, 8, {
    cx!(w, cx);
    g().ans[0] = 0;
    let mut c = cache();
    unsafe { futures_util::stream::futures_unordered::ALL_WAKE.v = false };
    c.push(7, Ep::new());
    assert!(poll_pending(&mut c, &mut cx).0 == 0);
    assert!(poll_pending(&mut c, &mut cx).0 == 0 && g().polls_of[0] == 1, "asked again only when woken");
    let k = wakes();
    assert!(c.evict(&7));
    assert!(wakes() > k, "the task is woken");
    assert!(poll_pending(&mut c, &mut cx).0 == 1 && c.is_empty() && g().gone[0]);
    forget(c);
});
