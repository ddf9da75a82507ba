//! C19 Steer.
//! kind: other
use crate::env::*;
use crate::{cx, proof};
use tower::steer::{Picker, Steer};

/// An arbitrary picker.
struct Pick {
    calls: u32,
    req: u8,
    len: usize,
    idx: usize,
    first_inst: u8,
}
nd::ghost! { static PK: Pick = Pick { calls: 0, req: 0, len: 0, idx: 0, first_inst: 0 }; }
fn pk() -> &'static mut Pick {
    unsafe { &mut *std::ptr::addr_of_mut!(PK.v) }
}
#[derive(Clone)]
struct AnyPicker;
impl Picker<Svc, u8> for AnyPicker {
    fn pick(&mut self, r: &u8, s: &[Svc]) -> usize {
        let i = below(s.len());
        let p = pk();
        p.calls += 1;
        p.req = *r;
        p.len = s.len();
        p.idx = i;
        p.first_inst = s[0].inst;
        i
    }
}

/// One poll_ready checked against `ready`: which services reported ready since their last call.
fn ready_poll(s: &mut Steer<Svc, AnyPicker, u8>, ready: &mut [bool; 3], n: usize, cx: &mut Context<'_>) -> bool {
    let (p0, r0) = (g().polls, registered());
    let r = s.poll_ready(cx);
    let asked = g().polls - p0;
    let want = (!ready[0]) as u32 + (n > 1 && !ready[1]) as u32 + (n > 2 && !ready[2]) as u32;
    match &r {
        Poll::Ready(Ok(())) => {
            assert!(asked == want, "ready: every service that was not ready was asked");
            assert!(asked == 0 || g().last_poll == 1);
            *ready = [true; 3];
        }
        Poll::Pending => {
            assert!(asked >= 1 && asked <= want && g().last_poll == 0, "pending only because a service is");
            assert!(registered() > r0);
        }
        Poll::Ready(Err(e)) => {
            cover!(true, "error");
            assert!(asked >= 1 && g().last_poll == 2 && e.0 == g().ready_err, "the first error any service reports");
        }
    }
    assume(!matches!(r, Poll::Ready(Err(_))));
    r.is_ready()
}
fn call(s: &mut Steer<Svc, AnyPicker, u8>, ready: &mut [bool; 3], n: usize, cx: &mut Context<'_>) {
    let (k, c0) = (g().calls, pk().calls);
    let req: u8 = any();
    let mut f = s.call(req);
    assert!(pk().calls == c0 + 1 && pk().req == req && pk().len == n && pk().first_inst == 0, "the picker sees the request and the full list once");
    assert!(g().calls == k + 1 && g().req[k] == req && g().inst[k] == pk().idx as u8, "forwarded to the picked service");
    ready[pk().idx] = false;
    if let Poll::Ready(r) = poll(&mut f, cx) {
        assert!(same(k, &r));
    }
    forget(f);
}

fn services(n: usize) -> Vec<Svc> {
    let mut v = Vec::with_capacity(3);
    let mut i = 0;
    while i < n {
        v.push(Svc::new());
        i += 1;
    }
    v
}

//@ bounded bound="3 services" fns="Steer::new, Steer::poll_ready"
//@ note="any readiness answers, two polls"
proof!(first_round, 5, {
    cx!(w, cx);
    let n = 3u32;
    // this caller polls the steer again after an error
    g().lenient = true;
    let mut s = Steer::new(services(3), AnyPicker);
    let (p0, r0) = (g().polls, registered());
    let r = s.poll_ready(&mut cx);
    let asked = g().polls - p0;
    match &r {
        Poll::Pending | Poll::Ready(Err(_)) => {
            let failed = !r.is_pending();
            cover!(asked == 2 && !failed, "pending after a ready one");
            if let Poll::Ready(Err(e)) = &r {
                cover!(asked == 2, "error after a ready one");
                assert!(g().last_poll == 2 && e.0 == g().ready_err && asked >= 1, "the first error");
            } else {
                assert!(asked >= 1 && g().last_poll == 0 && registered() > r0);
            }
            let p1 = g().polls;
            let r = s.poll_ready(&mut cx);
            let again = g().polls - p1;
            assert!(again >= 1);
            assert!(asked - 1 + again <= n || failed, "a service that is not ready does not consume the readiness of the others");
            match &r {
                Poll::Ready(Ok(())) => {
                    cover!(true, "ready at the second poll");
                    assert!(asked - 1 + again >= n, "ready only when every service reported ready")
                }
                Poll::Pending => assert!(g().last_poll == 0),
                Poll::Ready(Err(e)) => assert!(g().last_poll == 2 && e.0 == g().ready_err),
            }
        }
        Poll::Ready(Ok(())) => assert!(asked == n && g().last_poll == 1, "ready only when every service reported ready"),
    }
    forget(s);
});

//@ bounded bound="3 services" fns="Steer::poll_ready, Steer::call"
//@ note="after a call exactly the picked service is not ready: every state reachable between rounds"
proof!(later_rounds, 5, {
    cx!(w, cx);
    let n = 3;
    let mut s = Steer::new(services(n), AnyPicker);
    let mut ready = [true; 3];
    quiet(false, false, false, true);
    assert!(matches!(s.poll_ready(&mut cx), Poll::Ready(Ok(()))));
    call(&mut s, &mut ready, n, &mut cx);
    quiet(true, true, false, true);
    let picked = pk().idx as u8;
    if any() {
        ready_poll(&mut s, &mut ready, n, &mut cx);
        assert!(g().last_inst == picked, "only the called service is asked again");
    }
    if ready_poll(&mut s, &mut ready, n, &mut cx) {
        call(&mut s, &mut ready, n, &mut cx);
        assert!(!ready[pk().idx]);
    }
    forget(s);
});

//@ bounded bound="one service" fns="Steer::new, Steer::poll_ready, Steer::call, Picker for Fn"
proof!(one_service_and_closure, 4, {
    cx!(w, cx);
    let mut s = Steer::new(services(1), |r: &u8, v: &[Svc]| {
        fg().calls += 1;
        fg().arg = *r;
        v.len() - 1
    });
    let r = s.poll_ready(&mut cx);
    assert!(same_ready(&r));
    assume(matches!(r, Poll::Ready(Ok(()))));
    let req: u8 = any();
    let f = s.call(req);
    assert!(fg().calls == 1 && fg().arg == req && g().calls == 1 && g().req[0] == req);
    let p0 = g().polls;
    let r = s.poll_ready(&mut cx);
    assert!(g().polls == p0 + 1 && same_ready(&r), "called: asked again");
    forget((f, s));
});
