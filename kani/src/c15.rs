//! C15 The balancer follows discovery: removed, replaced and failed endpoints get nothing.
//! kind: other
use crate::env::*;
use crate::ep::*;
use crate::{cx, proof};

fn answers(a: &[u8]) {
    let mut i = 0;
    while i < a.len() {
        g().ans[i] = a[i];
        i += 1;
    }
}
/// Two ready endpoints 0 and 1 under keys 7 and 8, the first selected (it is the lesser-loaded).
fn two(cx: &mut Context<'_>) -> Bal {
    answers(&[1, 1]);
    bg().load = [1, 2, 3, 4, 0, 0];
    let mut b = balance(&[(1, 7), (1, 8)]);
    assert!(bal_ready(&mut b, cx) == 1 && b.len() == 2);
    b
}
/// The next request goes to endpoint `i`.
fn goes_to(b: &mut Bal, i: usize) {
    let (j, f) = bal_call(b);
    assert!(i == j);
    forget(f);
}
//@ bounded bound="two endpoints" fns="Balance::{poll_ready, call, update_pending_from_discover}, ReadyCache::evict" note="the endpoint that was selected is removed before the next poll"
proof!(remove_selected, 6, {
    cx!(w, cx);
    let mut b = two(&mut cx);
    announce(&[(2, 7)]);
    assert!(bal_ready(&mut b, &mut cx) == 1 && b.len() == 1);
    assert!(g().gone[0], "the removed endpoint is dropped");
    goes_to(&mut b, 1);
    forget(b);
});
//@ bounded bound="two endpoints" fns="Balance::{poll_ready, call, update_pending_from_discover}, ReadyCache::evict" note="the one that was not selected is removed"
proof!(remove_other, 6, {
    cx!(w, cx);
    let mut b = two(&mut cx);
    announce(&[(2, 8)]);
    assert!(bal_ready(&mut b, &mut cx) == 1 && b.len() == 1 && g().gone[1]);
    goes_to(&mut b, 0);
    assert!(bal_ready(&mut b, &mut cx) == 1);
    goes_to(&mut b, 0);
    forget(b);
});
//@ bounded bound="three endpoints" fns="Balance::{poll_ready, call, update_pending_from_discover}, ReadyCache::evict" note="the selected one is the last of three; an earlier one is removed"
proof!(remove_before_selected, 6, {
    cx!(w, cx);
    answers(&[1, 1, 1]);
    bg().load = [3, 2, 1, 0, 0, 0];
    bg().rng = [1, 2, 0, 1];
    let mut b = balance(&[(1, 7), (1, 8), (1, 9)]);
    assert!(bal_ready(&mut b, &mut cx) == 1 && b.len() == 3);
    announce(&[(2, 7)]);
    assert!(bal_ready(&mut b, &mut cx) == 1 && b.len() == 2 && g().gone[0]);
    let (i, f) = bal_call(&mut b);
    assert!(i != 0, "nothing goes to a removed endpoint");
    forget((b, f));
});
//@ bounded bound="two endpoints" fns="Balance::{poll_ready, update_pending_from_discover}" note="all are removed: pending, and a new one is used when it comes"
proof!(remove_all, 6, {
    cx!(w, cx);
    let mut b = two(&mut cx);
    announce(&[(2, 7), (2, 8)]);
    assert!(bal_ready(&mut b, &mut cx) == 0 && b.is_empty() && g().gone[0] && g().gone[1]);
    g().ans[2] = 1;
    announce(&[(1, 7)]);
    assert!(bal_ready(&mut b, &mut cx) == 1 && b.len() == 1);
    goes_to(&mut b, 2);
    forget(b);
});
//@ bounded bound="one endpoint" fns="Balance::{poll_ready, update_pending_from_discover}, ReadyCache::evict" note="a pending endpoint is removed: it is not asked again"
proof!(remove_pending, 6, {
    cx!(w, cx);
    g().ans[0] = 0;
    let mut b = balance(&[(1, 7)]);
    assert!(bal_ready(&mut b, &mut cx) == 0 && b.len() == 1);
    g().ans[0] = 1;
    let p = g().polls_of[0];
    announce(&[(2, 7)]);
    assert!(bal_ready(&mut b, &mut cx) == 0 && b.len() == 0);
    assert!(g().polls_of[0] == p && g().gone[0]);
    forget(b);
});
//@ bounded bound="one endpoint" fns="Balance::{poll_ready, update_pending_from_discover}" note="inserted and removed, or removed and inserted again, in one go"
proof!(insert_remove_insert, 6, {
    cx!(w, cx);
    answers(&[1, 1, 1]);
    let mut b = balance(&[(1, 7), (2, 7), (1, 7), (2, 9)]);
    assert!(bal_ready(&mut b, &mut cx) == 1 && b.len() == 1);
    assert!(g().gone[0] && g().polls_of[0] == 0, "the removed one gets nothing");
    goes_to(&mut b, 1);
    forget(b);
});
//@ bounded bound="two endpoints, one replaced" fns="Balance::{poll_ready, call, update_pending_from_discover}, ReadyCache::{push, poll_pending}" note="a key is inserted again: the new endpoint replaces the old one, which gets nothing any more"
proof!(replace_ready, 6, {
    cx!(w, cx);
    let mut b = two(&mut cx);
    g().ans[2] = 1;
    announce(&[(1, 7)]);
    assert!(bal_ready(&mut b, &mut cx) == 1 && b.len() == 2);
    assert!(g().gone[0], "the old endpoint is dropped");
    let (i, f) = bal_call(&mut b);
    assert!(i == 1 || i == 2);
    forget((b, f));
});
//@ bounded bound="one endpoint, replaced" fns="Balance::{poll_ready, call, update_pending_from_discover}, ReadyCache::{push, poll_pending, call_ready_index}" note="the old endpoint serves until the new one is ready, which then replaces it"
proof!(replace_pending, 6, {
    cx!(w, cx);
    answers(&[1, 0]);
    let mut b = balance(&[(1, 7)]);
    assert!(bal_ready(&mut b, &mut cx) == 1);
    announce(&[(1, 7)]);
    assert!(bal_ready(&mut b, &mut cx) == 1);
    goes_to(&mut b, 0);
    g().ans[1] = 1;
    assert!(bal_ready(&mut b, &mut cx) == 1 && b.len() == 1 && g().gone[0]);
    goes_to(&mut b, 1);
    forget(b);
});
//@ bounded bound="one endpoint, replaced" fns="Balance::{poll_ready, call, update_pending_from_discover}, ReadyCache::{push, poll_pending}" note="the new endpoint fails: the old one goes on"
proof!(replacement_fails, 6, {
    cx!(w, cx);
    answers(&[1, 2]);
    let mut b = balance(&[(1, 7)]);
    assert!(bal_ready(&mut b, &mut cx) == 1);
    announce(&[(1, 7)]);
    assert!(bal_ready(&mut b, &mut cx) == 1 && b.len() == 1 && g().gone[1] && !g().gone[0]);
    goes_to(&mut b, 0);
    forget(b);
});
//@ bounded bound="two endpoints, one fails" fns="Balance::{poll_ready, call, promote_pending_to_ready}, ReadyCache::poll_pending" note="an endpoint that fails is dropped; the others and the balancer go on"
proof!(pending_fails, 6, {
    cx!(w, cx);
    answers(&[0, 1]);
    let mut b = balance(&[(1, 7), (1, 8)]);
    assert!(bal_ready(&mut b, &mut cx) == 1 && b.len() == 2);
    g().ans[0] = 2;
    assert!(bal_ready(&mut b, &mut cx) == 1 && b.len() == 1 && g().gone[0] && !g().gone[1]);
    goes_to(&mut b, 1);
    forget(b);
});
//@ bounded bound="three endpoints, two fail" fns="Balance::{poll_ready, call, promote_pending_to_ready}, ReadyCache::poll_pending" note="several fail in one poll: all are dropped, the remaining one is used"
proof!(several_fail, 6, {
    cx!(w, cx);
    answers(&[2, 2, 1]);
    let mut b = balance(&[(1, 7), (1, 8), (1, 9)]);
    assert!(bal_ready(&mut b, &mut cx) == 1 && b.len() == 1 && g().gone[0] && g().gone[1]);
    goes_to(&mut b, 2);
    forget(b);
});
//@ bounded bound="two endpoints, both fail" fns="Balance::{poll_ready, call}, ReadyCache::check_ready_index" note="the selected one fails, then the other: pending, nothing is returned to the caller"
proof!(selected_fail, 6, {
    cx!(w, cx);
    let mut b = two(&mut cx);
    answers(&[2, 2]);
    assert!(bal_ready(&mut b, &mut cx) == 0 && b.is_empty() && g().gone[0] && g().gone[1]);
    forget(b);
});
//@ bounded bound="two changes before the error" fns="Balance::{poll_ready, update_pending_from_discover}, error::Discover" note="an error of discovery is returned; changes before it stay applied, those after it are taken by the next poll"
proof!(discovery_fails, 6, {
    cx!(w, cx);
    answers(&[1, 1]);
    let mut b = balance(&[(1, 7), (3, 0), (1, 8)]);
    assert!(bal_ready(&mut b, &mut cx) == 2 && g().calls == 0);
    assert!(bal_ready(&mut b, &mut cx) == 1 && b.len() == 2);
    forget(b);
});
//@ bounded bound="one endpoint" fns="Balance::{poll_ready, update_pending_from_discover}" note="discovery ends: what is there goes on serving"
proof!(discovery_ends, 6, {
    cx!(w, cx);
    answers(&[0]);
    let mut b = balance(&[(1, 7), (4, 0)]);
    assert!(bal_ready(&mut b, &mut cx) == 0 && b.len() == 1);
    g().ans[0] = 1;
    assert!(bal_ready(&mut b, &mut cx) == 1);
    goes_to(&mut b, 0);
    forget(b);
});
