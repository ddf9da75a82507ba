//! C26 oneshot, ready, spawn-ready.
use crate::env::*;
use crate::{cx, proof};
use tower::spawn_ready::SpawnReady;
use tower::ServiceExt;
use tokio::task;

//@ proof fns="util::Oneshot::poll, ServiceExt::oneshot" note="any readiness and response answers, three polls of the future"
proof!(oneshot, 5, {
    cx!(w, cx);
    let req: u8 = any();
    let by_new: bool = any();
    let mut f = if by_new { tower::util::Oneshot::new(Svc::new(), req) } else { Svc::new().oneshot(req) };
    assert!(g().polls == 0 && g().calls == 0, "nothing happens before the first poll");
    let r = answer3(&mut f, &mut cx);
    assert!(g().calls <= 1, "at most one call");
    if g().calls == 1 {
        assert!(g().req[0] == req, "with the given request");
        assert!(g().last_poll == 1, "once it was ready");
    }
    match &r {
        Poll::Pending => assert!(if g().calls == 1 { !done(0) } else { g().last_poll == 0 }, "pending only while the service or the response is"),
        Poll::Ready(r) => {
            if g().calls == 1 {
                cover!(r.is_ok(), "a successful call");
                assert!(same(0, r), "the result of the call");
            } else {
                assert!(g().last_poll == 2 && *r == Err(MyErr(g().ready_err)), "the readiness error");
            }
        }
    }
    forget((f, r));
});

//@ proof fns="util::ReadyOneshot::poll, ServiceExt::ready_oneshot"
proof!(ready_oneshot, 5, {
    cx!(w, cx);
    let s = Svc::new();
    let inst = s.inst;
    let mut f = s.ready_oneshot();
    let r = answer3(&mut f, &mut cx);
    assert!(g().calls == 0, "no call");
    match r {
        Poll::Pending => assert!(g().last_poll == 0, "pending while the service is"),
        Poll::Ready(Ok(s)) => {
            assert!(g().last_poll == 1 && s.inst == inst && s.ready == 1, "the ready service is handed back");
            forget(s);
        }
        Poll::Ready(Err(e)) => assert!(g().last_poll == 2 && e.0 == g().ready_err, "the readiness error"),
    }
    forget(f);
});

//@ proof fns="util::Ready::poll, ServiceExt::ready"
proof!(ready, 5, {
    cx!(w, cx);
    let mut s = Svc::new();
    let inst = s.inst;
    let req: u8 = any();
    let mut f = s.ready();
    let r = answer3(&mut f, &mut cx);
    assert!(g().calls == 0, "no call");
    match r {
        Poll::Pending => assert!(g().last_poll == 0, "pending while the service is"),
        Poll::Ready(Ok(s)) => {
            assert!(g().last_poll == 1 && s.inst == inst && s.ready == 1, "the ready service is handed back");
            // and can be called
            forget(s.call(req));
        }
        Poll::Ready(Err(e)) => assert!(g().last_poll == 2 && e.0 == g().ready_err, "the readiness error"),
    }
    forget(s);
});

type R = Poll<Result<(), tower::BoxError>>;
fn ok(r: &R) -> bool {
    matches!(r, Poll::Ready(Ok(())))
}
fn failed(r: &R) -> bool {
    match r {
        Poll::Ready(Err(e)) => is_my_err(e, g().ready_err),
        _ => false,
    }
}
fn sched(x: u8) {
    unsafe { task::SCHED.v = x }
}
fn spawned() -> u32 {
    unsafe { task::SPAWNED.v }
}
/// A call goes to the very service given and its result comes back.
fn serves(s: &mut SpawnReady<Svc>, cx: &mut Context<'_>) {
    let req: u8 = any();
    let c0 = g().calls;
    let mut f = s.call(req);
    assert!(g().calls == c0 + 1 && g().req[c0] == req && g().inst[c0] == 0, "the request goes to the service given, once");
    let r = answer3(&mut f, cx);
    if let Poll::Ready(r) = &r {
        assert!(same_boxed(c0, r), "its result comes back");
    } else {
        assert!(!done(c0), "pending only while the response is");
    }
    forget((f, r));
}
macro_rules! poll_script {
    ($s:ident, $cx:ident, $script:expr, $sched:expr) => {{
        g().script = $script;
        sched($sched);
        let r0 = registered();
        let r: R = $s.poll_ready(&mut $cx);
        assert!(g().script.is_empty(), "the service is asked as often as needed");
        if r.is_pending() {
            assert!(registered() > r0, "pending: the task is registered");
        }
        r
    }};
}

//@ proof fns="SpawnReady::poll_ready, SpawnReady::call" note="service ready at once"
proof!(spawn_ready_at_once, 5, {
    cx!(w, cx);
    let mut s = SpawnReady::new(Svc::new());
    let r = poll_script!(s, cx, &[1], 255);
    assert!(ok(&r) && spawned() == 0, "a ready service needs no task");
    serves(&mut s, &mut cx);
    // and again
    let r = poll_script!(s, cx, &[1], 255);
    assert!(ok(&r) && spawned() == 0, "a ready service needs no task");
    drop(s);
    assert!(unsafe { task::ABORTED.v == 0 && task::DETACHED.v == 0 } && g().svc_alive == 0);
});
//@ proof fns="SpawnReady::poll_ready" note="service failed at once"
proof!(spawn_ready_fails_at_once, 5, {
    cx!(w, cx);
    let mut s = SpawnReady::new(Svc::new());
    let r = poll_script!(s, cx, &[2], 255);
    assert!(failed(&r) && spawned() == 0, "its error is returned");
    forget((s, r));
});
//@ proof fns="SpawnReady::poll_ready, SpawnReady::call, SpawnReady::drop" note="not ready, driven by one task through two polls, then ready"
proof!(spawn_ready_background, 5, {
    cx!(w, cx);
    let mut s = SpawnReady::new(Svc::new());
    let r = poll_script!(s, cx, &[0], 1);
    assert!(r.is_pending() && spawned() == 1, "a task drives the service that is not ready");
    let r = poll_script!(s, cx, &[], 1);
    assert!(r.is_pending() && spawned() == 1, "one task at a time");
    let r = poll_script!(s, cx, &[0], 0);
    assert!(r.is_pending() && spawned() == 1, "one task at a time");
    let r = poll_script!(s, cx, &[1, 1], 0);
    assert!(ok(&r) && spawned() == 1, "handed back ready");
    assert!(unsafe { task::DETACHED.v == 0 }, "the task was not abandoned");
    serves(&mut s, &mut cx);
    forget(s);
});
//@ proof fns="SpawnReady::poll_ready" note="the task runs within the same poll"
proof!(spawn_ready_background_at_once, 5, {
    cx!(w, cx);
    let mut s = SpawnReady::new(Svc::new());
    let r = poll_script!(s, cx, &[0, 1, 1], 0);
    assert!(ok(&r) && spawned() == 1, "handed back ready");
    serves(&mut s, &mut cx);
    forget(s);
});
//@ proof fns="SpawnReady::poll_ready" note="the service fails on the task"
proof!(spawn_ready_background_fails, 5, {
    cx!(w, cx);
    let mut s = SpawnReady::new(Svc::new());
    let r = poll_script!(s, cx, &[0], 1);
    assert!(r.is_pending() && spawned() == 1, "a task drives the service that is not ready");
    let r = poll_script!(s, cx, &[2], 0);
    assert!(failed(&r) && spawned() == 1, "its error is returned");
    forget((s, r));
});
//@ proof fns="SpawnReady::poll_ready" note="the runtime cancels the task"
proof!(spawn_ready_cancelled, 5, {
    cx!(w, cx);
    let mut s = SpawnReady::new(Svc::new());
    let r = poll_script!(s, cx, &[0], 1);
    assert!(r.is_pending() && spawned() == 1, "a task drives the service that is not ready");
    let r = poll_script!(s, cx, &[], 2);
    assert!(matches!(r, Poll::Ready(Err(_))), "a lost service is an error, not a hang");
    forget((s, r));
});
//@ proof fns="SpawnReady::poll_ready" note="handed back, then not ready again: a second task"
proof!(spawn_ready_again, 5, {
    cx!(w, cx);
    let mut s = SpawnReady::new(Svc::new());
    let r = poll_script!(s, cx, &[0], 1);
    assert!(r.is_pending());
    let r = poll_script!(s, cx, &[1, 1], 0);
    assert!(ok(&r) && spawned() == 1, "handed back ready");
    serves(&mut s, &mut cx);
    let r = poll_script!(s, cx, &[0], 1);
    assert!(r.is_pending() && spawned() == 2, "driven by a task again");
    assert!(unsafe { task::DETACHED.v == 0 }, "one task at a time");
    let r = poll_script!(s, cx, &[1, 1], 0);
    assert!(ok(&r) && spawned() == 2, "handed back ready");
    forget(s);
});
//@ proof fns="SpawnReady::drop" note="dropped while the task is running"
proof!(spawn_ready_dropped, 5, {
    cx!(w, cx);
    let mut s = SpawnReady::new(Svc::new());
    let r = poll_script!(s, cx, &[0], 1);
    assert!(r.is_pending());
    drop(s);
    assert!(unsafe { task::ABORTED.v == 1 && task::DETACHED.v == 0 }, "the task is cancelled");
});
