//! C14 The balancer dispatches to a ready endpoint, the lesser-loaded of two.
//! kind: other
use crate::env::*;
use crate::ep::*;
use crate::{cx, proof};

/// The response comes back unchanged.
fn answered(t: usize, mut f: BalFut, ok: u8, cx: &mut Context<'_>) {
    g().force_fut = ok;
    let r = poll(&mut f, cx);
    match &r {
        Poll::Ready(Ok(v)) => assert!(ok == 1 && g().val[t] == *v, "the response, unchanged"),
        Poll::Ready(Err(e)) => assert!(ok == 2 && e.is::<E8>(), "the error, unchanged"),
        Poll::Pending => panic!("pending only while the response is"),
    }
    forget((f, r));
}
fn ready_endpoints(n: u8) {
    let mut i = 0;
    while i < n {
        g().ans[i as usize] = 1;
        i += 1;
    }
}
/// `n` ready endpoints with these loads; the generator yields `rng`.
fn choose(n: u8, load: [u64; 3], rng: [u64; 2]) {
    cx!(w, cx);
    ready_endpoints(n);
    bg().load = [load[0], load[1], load[2], 0, 0, 0];
    bg().rng = [rng[0], rng[1], rng[0], rng[1]];
    let mut b = balance(if n == 2 { &[(1, 7), (1, 8)] } else { &[(1, 7), (1, 8), (1, 9)] });
    assert!(bal_ready(&mut b, &mut cx) == 1 && b.len() == n as usize);
    let (x, y) = (bg().asked[0], bg().asked[1]);
    assert!(bg().n_asked == 2 && x != y, "the loads of two distinct endpoints are compared");
    let (i, f) = bal_call(&mut b);
    assert!(i == x as usize || i == y as usize, "one of the two is selected");
    let o = if i == x as usize { y } else { x };
    assert!(bg().load[i] <= bg().load[o as usize], "the one whose load is not greater");
    forget((b, f));
}
//@ bounded bound="two ready endpoints, this draw and order of loads" fns="Balance::{from_rng, poll_ready, call, p2c_ready_index, ready_index_load, len}"
proof!(two_0_lt, 6, { choose(2, [1, 2, 0], [0, 0]) });
//@ bounded bound="two ready endpoints, this draw and order of loads" fns="Balance::{from_rng, poll_ready, call, p2c_ready_index, ready_index_load, len}"
proof!(two_0_gt, 6, { choose(2, [2, 1, 0], [0, 0]) });
//@ bounded bound="two ready endpoints, this draw and order of loads" fns="Balance::{from_rng, poll_ready, call, p2c_ready_index, ready_index_load, len}"
proof!(two_0_eq, 6, { choose(2, [3, 3, 0], [0, 0]) });
//@ bounded bound="two ready endpoints, this draw and order of loads" fns="Balance::{from_rng, poll_ready, call, p2c_ready_index, ready_index_load, len}"
proof!(two_1_lt, 6, { choose(2, [1, 2, 0], [0, 1]) });
//@ bounded bound="two ready endpoints, this draw and order of loads" fns="Balance::{from_rng, poll_ready, call, p2c_ready_index, ready_index_load, len}"
proof!(two_1_gt, 6, { choose(2, [2, 1, 0], [0, 1]) });
//@ bounded bound="two ready endpoints, this draw and order of loads" fns="Balance::{from_rng, poll_ready, call, p2c_ready_index, ready_index_load, len}"
proof!(two_1_eq, 6, { choose(2, [3, 3, 0], [0, 1]) });
//@ bounded bound="three ready endpoints, this draw and order of loads" fns="Balance::{poll_ready, call, p2c_ready_index, ready_index_load}"
proof!(three_00_up, 6, { choose(3, [1, 2, 3], [0, 0]) });
//@ bounded thorough bound="three ready endpoints, this draw and order of loads" fns="Balance::{poll_ready, call, p2c_ready_index, ready_index_load}"
#[cfg(feature = "thorough")]
proof!(three_00_down, 6, { choose(3, [3, 2, 1], [0, 0]) });
//@ bounded thorough bound="three ready endpoints, this draw and order of loads" fns="Balance::{poll_ready, call, p2c_ready_index, ready_index_load}"
#[cfg(feature = "thorough")]
proof!(three_01_up, 6, { choose(3, [1, 2, 3], [0, 1]) });
//@ bounded bound="three ready endpoints, this draw and order of loads" fns="Balance::{poll_ready, call, p2c_ready_index, ready_index_load}"
proof!(three_01_down, 6, { choose(3, [3, 2, 1], [0, 1]) });
//@ bounded bound="three ready endpoints, this draw and order of loads" fns="Balance::{poll_ready, call, p2c_ready_index, ready_index_load}"
proof!(three_02_up, 6, { choose(3, [1, 2, 3], [0, 2]) });
//@ bounded thorough bound="three ready endpoints, this draw and order of loads" fns="Balance::{poll_ready, call, p2c_ready_index, ready_index_load}"
#[cfg(feature = "thorough")]
proof!(three_02_down, 6, { choose(3, [3, 2, 1], [0, 2]) });
//@ bounded thorough bound="three ready endpoints, this draw and order of loads" fns="Balance::{poll_ready, call, p2c_ready_index, ready_index_load}"
#[cfg(feature = "thorough")]
proof!(three_10_up, 6, { choose(3, [1, 2, 3], [1, 0]) });
//@ bounded bound="three ready endpoints, this draw and order of loads" fns="Balance::{poll_ready, call, p2c_ready_index, ready_index_load}"
proof!(three_10_down, 6, { choose(3, [3, 2, 1], [1, 0]) });
//@ bounded bound="three ready endpoints, this draw and order of loads" fns="Balance::{poll_ready, call, p2c_ready_index, ready_index_load}"
proof!(three_11_up, 6, { choose(3, [1, 2, 3], [1, 1]) });
//@ bounded thorough bound="three ready endpoints, this draw and order of loads" fns="Balance::{poll_ready, call, p2c_ready_index, ready_index_load}"
#[cfg(feature = "thorough")]
proof!(three_11_down, 6, { choose(3, [3, 2, 1], [1, 1]) });
//@ bounded thorough bound="three ready endpoints, this draw and order of loads" fns="Balance::{poll_ready, call, p2c_ready_index, ready_index_load}"
#[cfg(feature = "thorough")]
proof!(three_12_up, 6, { choose(3, [1, 2, 3], [1, 2]) });
//@ bounded bound="three ready endpoints, this draw and order of loads" fns="Balance::{poll_ready, call, p2c_ready_index, ready_index_load}"
proof!(three_12_down, 6, { choose(3, [3, 2, 1], [1, 2]) });

/// One endpoint, answering `a`.
fn single(a: u8) {
    cx!(w, cx);
    g().ans[0] = a;
    let mut b = balance(&[(1, 7)]);
    let r = bal_ready(&mut b, &mut cx);
    assert!(g().polls_of[0] >= 1, "the endpoint is asked");
    if a == 1 {
        assert!(r == 1 && b.len() == 1);
        let (i, f) = bal_call(&mut b);
        assert!(i == 0);
        answered(0, f, 1, &mut cx);
    } else {
        assert!(r == 0 && b.len() == (a == 0) as usize, "pending exactly when none is ready");
        g().ans[0] = 1;
        assert!((bal_ready(&mut b, &mut cx) == 1) == (a == 0), "ready as soon as the endpoint is");
    }
    forget(b);
}
//@ bounded bound="one endpoint" fns="Balance::{poll_ready, call, update_pending_from_discover, promote_pending_to_ready, p2c_ready_index}"
proof!(single_0, 6, { single(0) });
//@ bounded bound="one endpoint" fns="Balance::{poll_ready, call, update_pending_from_discover, promote_pending_to_ready, p2c_ready_index}"
proof!(single_1, 6, { single(1) });
//@ bounded bound="one endpoint" fns="Balance::{poll_ready, call, update_pending_from_discover, promote_pending_to_ready, p2c_ready_index}"
proof!(single_2, 6, { single(2) });
//@ bounded bound="one endpoint" fns="Balance::call" note="an error of the endpoint reaches the caller"
proof!(call_error, 6, {
    cx!(w, cx);
    g().ans[0] = 1;
    let mut b = balance(&[(1, 7)]);
    assert!(bal_ready(&mut b, &mut cx) == 1);
    let (_, f) = bal_call(&mut b);
    answered(0, f, 2, &mut cx);
    forget(b);
});
//@ bounded bound="no endpoint, then one" fns="Balance::{poll_ready, is_empty, len}" note="nothing to dispatch to: pending, registered with discovery"
proof!(empty, 6, {
    cx!(w, cx);
    let mut b = balance(&[]);
    assert!(b.is_empty() && bal_ready(&mut b, &mut cx) == 0 && b.len() == 0);
    g().ans[0] = 1;
    announce(&[(1, 7)]);
    assert!(bal_ready(&mut b, &mut cx) == 1 && !b.is_empty());
    let (i, f) = bal_call(&mut b);
    assert!(i == 0);
    forget((b, f));
});
/// One of two endpoints is ready, the other answers `a`: the ready one is used.
fn one_of_two(first: bool, a: u8) {
    cx!(w, cx);
    g().ans[0] = if first { 1 } else { a };
    g().ans[1] = if first { a } else { 1 };
    let mut b = balance(&[(1, 7), (1, 8)]);
    assert!(bal_ready(&mut b, &mut cx) == 1 && b.len() == 1 + (a == 0) as usize);
    assert!(g().polls_of[0] >= 1 && g().polls_of[1] >= 1, "every endpoint not ready yet is asked");
    let (i, f) = bal_call(&mut b);
    assert!((i == 0) == first);
    forget((b, f));
}
//@ bounded bound="two endpoints, one ready" fns="Balance::{poll_ready, call, promote_pending_to_ready, p2c_ready_index}"
proof!(one_of_two_true_0, 6, { one_of_two(true, 0) });
//@ bounded bound="two endpoints, one ready" fns="Balance::{poll_ready, call, promote_pending_to_ready, p2c_ready_index}"
proof!(one_of_two_true_2, 6, { one_of_two(true, 2) });
//@ bounded bound="two endpoints, one ready" fns="Balance::{poll_ready, call, promote_pending_to_ready, p2c_ready_index}"
proof!(one_of_two_false_0, 6, { one_of_two(false, 0) });
//@ bounded bound="two endpoints, one ready" fns="Balance::{poll_ready, call, promote_pending_to_ready, p2c_ready_index}"
proof!(one_of_two_false_2, 6, { one_of_two(false, 2) });
/// The selected endpoint of two answers `a` at the next readiness poll: the other is used.
fn selected_lost(a: u8, other: u8) {
    cx!(w, cx);
    ready_endpoints(2);
    bg().load = [1, 2, 0, 0, 0, 0];
    let mut b = balance(&[(1, 7), (1, 8)]);
    assert!(bal_ready(&mut b, &mut cx) == 1);
    g().ans[0] = a;
    g().ans[1] = other;
    let r = bal_ready(&mut b, &mut cx);
    if other == 1 {
        assert!(r == 1, "another one is selected");
        let (i, f) = bal_call(&mut b);
        assert!(i == 1, "not the one that stopped being ready");
        forget(f);
    } else {
        assert!(r == 0, "pending exactly when none is ready");
        assert!(g().polls_of[0] >= 2 && g().polls_of[1] >= 2);
        g().ans[1] = 1;
        assert!(bal_ready(&mut b, &mut cx) == 1);
        let (i, f) = bal_call(&mut b);
        assert!(i == 1);
        forget(f);
    }
    assert!(b.len() == 1 + (a == 0) as usize);
    forget(b);
}
//@ bounded bound="two endpoints, the selected one is lost before the call" fns="Balance::{poll_ready, call}, ReadyCache::check_ready_index"
proof!(selected_lost_0_1, 6, { selected_lost(0, 1) });
//@ bounded bound="two endpoints, the selected one is lost before the call" fns="Balance::{poll_ready, call}, ReadyCache::check_ready_index"
proof!(selected_lost_0_0, 6, { selected_lost(0, 0) });
//@ bounded bound="two endpoints, the selected one is lost before the call" fns="Balance::{poll_ready, call}, ReadyCache::check_ready_index"
proof!(selected_lost_2_1, 6, { selected_lost(2, 1) });
//@ bounded bound="two endpoints, the selected one is lost before the call" fns="Balance::{poll_ready, call}, ReadyCache::check_ready_index"
proof!(selected_lost_2_0, 6, { selected_lost(2, 0) });
//@ bounded bound="two endpoints, two rounds" fns="Balance::{poll_ready, call}" note="the endpoint that got a request is asked again before it gets the next"
proof!(rounds, 6, {
    cx!(w, cx);
    ready_endpoints(2);
    bg().load = [1, 2, 0, 0, 0, 0];
    let mut b = balance(&[(1, 7), (1, 8)]);
    assert!(bal_ready(&mut b, &mut cx) == 1);
    let (i, f) = bal_call(&mut b);
    assert!(i == 0 && b.len() == 2);
    g().ans[0] = 0;
    assert!(bal_ready(&mut b, &mut cx) == 1);
    let (i, f2) = bal_call(&mut b);
    assert!(i == 1, "the other one is still busy");
    forget((b, f, f2));
});
