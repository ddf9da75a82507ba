//! C28 discovery adaptors.
use crate::env::*;
use crate::{cx, proof};
use futures_core::Stream;
use tower::discover::{Change, Discover, ServiceList};
use tower::load::{CompleteOnResponse, Constant, Load, PeakEwmaDiscover, PendingRequestsDiscover};

fn next<S: Stream>(s: &mut S, cx: &mut Context<'_>) -> Poll<Option<S::Item>> {
    unsafe { Pin::new_unchecked(s) }.poll_next(cx)
}
/// The service wrapped in an inserted endpoint is the one discovery gave: it is
/// ready when that is and a call goes to it.
fn wraps<S: Service<u8, Response = u8, Error = MyErr>>(s: &mut S, inst: u8, cx: &mut Context<'_>) {
    let p0 = g().polls;
    let r = s.poll_ready(cx);
    assert!(g().polls == p0 + 1 && g().last_inst == inst && same_ready(&r), "the endpoint's own readiness");
    if let Poll::Ready(Ok(())) = r {
        let req: u8 = any();
        let t = g().calls;
        let mut f = s.call(req);
        assert!(g().calls == t + 1 && g().inst[t] == inst && g().req[t] == req, "the request goes to the inserted endpoint");
        let r = poll(&mut f, cx);
        match &r {
            Poll::Ready(r) => assert!(same(t, r), "its result comes back"),
            Poll::Pending => assert!(!done(t), "pending while it is"),
        }
        forget(f);
    }
}
macro_rules! two {
    ($s:ident, $cx:ident, $svc:ident, $each:block) => {
        let mut n = 0;
        while n < 2 {
            let (p0, r0) = (dg().polls, registered());
            let r = next(&mut $s, &mut $cx);
            assert!(dg().polls == p0 + 1, "discovery is asked once");
            assert!(same_change(&r), "the change, error or end is forwarded with its key");
            match r {
                Poll::Pending => assert!(registered() > r0, "pending: the task is registered"),
                Poll::Ready(Some(Ok(Change::Insert(_, mut $svc)))) => {
                    $each
                    forget($svc);
                }
                Poll::Ready(None) => break,
                _ => {}
            }
            n += 1;
        }
        forget($s);
    };
}

//@ proof fns="<Constant as Stream>::poll_next, Constant::load, Constant::poll_ready, Constant::call" note="any two consecutive answers of discovery"
proof!(constant, 4, {
    cx!(w, cx);
    let load: u8 = any();
    let mut s = Constant::new(Disc, load);
    assert!(s.load() == load, "the constant");
    two!(s, cx, svc, {
        assert!(svc.load() == load, "the endpoint's load is the constant");
        wraps(&mut svc, dg().inst, &mut cx);
    });
});
//@ proof fns="PendingRequestsDiscover::poll_next" note="any two consecutive answers of discovery"
proof!(pending_requests, 4, {
    cx!(w, cx);
    let mut s = PendingRequestsDiscover::new::<u8>(Disc, CompleteOnResponse::default());
    two!(s, cx, svc, {
        wraps(&mut svc, dg().inst, &mut cx);
    });
});
//@ proof fns="PeakEwmaDiscover::poll_next" note="any two consecutive answers of discovery"
proof!(peak_ewma, 4, {
    cx!(w, cx);
    g().force_fut = 0;
    let mut s = PeakEwmaDiscover::new::<u8>(Disc, Duration::from_millis(10), Duration::from_secs(1), CompleteOnResponse::default());
    two!(s, cx, svc, {
        wraps(&mut svc, dg().inst, &mut cx);
    });
});
//@ proof fns="<TryStream as Discover>::poll_discover" note="any answer"
proof!(stream_is_discover, 4, {
    cx!(w, cx);
    let mut s = Disc;
    let r = Pin::new(&mut s).poll_discover(&mut cx);
    assert!(dg().polls == 1 && same_change(&r), "the stream's own answer");
    forget(r);
});

/// An arbitrary finite list, given lazily.
struct List(usize);
impl Iterator for List {
    type Item = Svc;
    fn next(&mut self) -> Option<Svc> {
        if self.0 == 0 {
            None
        } else {
            self.0 -= 1;
            Some(Svc::new())
        }
    }
}
//@ bounded bound="lists of up to three services" fns="ServiceList::new, ServiceList::poll_next"
proof!(service_list, 5, {
    cx!(w, cx);
    let n = below(4);
    let mut s = ServiceList::new::<u8>(List(n));
    let mut i = 0;
    while i < n {
        match next(&mut s, &mut cx) {
            Poll::Ready(Some(Ok(Change::Insert(k, svc)))) => {
                assert!(k == i, "consecutive keys in list order");
                assert!(svc.inst == i as u8, "each service once, in order");
                forget(svc);
            }
            _ => assert!(false, "each service is announced at once"),
        }
        i += 1;
    }
    assert!(matches!(next(&mut s, &mut cx), Poll::Ready(None)), "then the list ends");
    assert!(g().services as usize == n, "nothing is announced twice");
    forget(s);
});
