//! Endpoints for the ready cache and the balancer (C14-C16).
use crate::env::*;

/// The error of an endpoint (which one it is from); a whole word (a smaller one would share its memory with the tag of
/// the results it is passed in, which costs the verifier its constants).
#[derive(Debug)]
pub struct E8(u64);
impl std::fmt::Display for E8 {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for E8 {}
/// The error of the service of this instance.
pub fn is_err_of(e: &tower::BoxError, i: u8) -> bool {
    match e.downcast_ref::<E8>() {
        Some(m) => m.0 == 100 + i as u64,
        None => false,
    }
}
/// An arbitrary endpoint.
pub struct Ep {
    pub svc: Svc,
}
impl Ep {
    pub fn new() -> Ep {
        Ep { svc: Svc::new() }
    }
}
impl Service<u8> for Ep {
    type Response = u8;
    type Error = E8;
    type Future = EpFut;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), E8>> {
        match self.svc.poll_ready(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(Ok(())) => Poll::Ready(Ok(())),
            Poll::Ready(Err(_)) => Poll::Ready(Err(E8(100 + self.svc.inst as u64))),
        }
    }
    fn call(&mut self, r: u8) -> EpFut {
        EpFut(self.svc.call(r))
    }
}
pub struct EpFut(pub Fut);
impl Future for EpFut {
    type Output = Result<u8, E8>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        match poll(&mut self.0, cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(Ok(v)) => Poll::Ready(Ok(v)),
            Poll::Ready(Err(e)) => Poll::Ready(Err(E8(e.0 as u64))),
        }
    }
}

// ---- balancing ---------------------------------------------------------------------

use tower::discover::Change;
use tower::load::Load;
/// Loads, by instance; which instances were asked for theirs, in order.
pub struct BalGhost {
    pub load: [u64; I],
    pub asked: [u8; 4],
    pub n_asked: usize,
    /// what the generator yields
    pub rng: [u64; 4],
    pub n_rng: usize,
    /// what discovery announces: (kind, key) with kind 1 insert (of the next instance), 2 remove,
    /// 3 error, 4 end; Pending when there is no more
    pub disc: [(u8, u64); 4],
    pub n_disc: usize,
    pub len_disc: usize,
    /// discovery has ended: it says so from then on
    pub disc_ended: bool,
    pub disc_pending: u32,
}
nd::ghost! { pub static BG: BalGhost = BalGhost {
    load: [0; I],
    asked: [99; 4],
    n_asked: 0,
    rng: [0; 4],
    n_rng: 0,
    disc: [(0, 0); 4],
    n_disc: 0,
    len_disc: 0,
    disc_ended: false,
    disc_pending: 0,
}; }
pub fn bg() -> &'static mut BalGhost {
    unsafe { &mut *std::ptr::addr_of_mut!(BG.v) }
}
/// Discovery announces this next.
pub fn announce(c: &[(u8, u64)]) {
    let d = bg();
    d.n_disc = 0;
    d.len_disc = c.len();
    let mut i = 0;
    while i < c.len() {
        d.disc[i] = c[i];
        i += 1;
    }
}
impl Load for Ep {
    type Metric = u64;
    fn load(&self) -> u64 {
        let b = bg();
        if b.n_asked < 4 {
            b.asked[b.n_asked] = self.svc.inst;
        }
        b.n_asked += 1;
        b.load[self.svc.inst as usize]
    }
}
/// The generator yields `rng`, in turn.
pub struct Script;
impl tower::util::rng::Rng for Script {
    fn next_u64(&mut self) -> u64 {
        let b = bg();
        let x = b.rng[b.n_rng % 4];
        b.n_rng += 1;
        x
    }
}
pub struct BDisc;
impl futures_core::Stream for BDisc {
    type Item = Result<Change<u64, Ep>, E8>;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        let d = bg();
        if d.disc_ended {
            return Poll::Ready(None);
        }
        if d.n_disc == d.len_disc {
            register(cx);
            d.disc_pending += 1;
            return Poll::Pending;
        }
        let (kind, key) = d.disc[d.n_disc];
        d.n_disc += 1;
        match kind {
            1 => Poll::Ready(Some(Ok(Change::Insert(key, Ep::new())))),
            2 => Poll::Ready(Some(Ok(Change::Remove(key)))),
            3 => Poll::Ready(Some(Err(E8(77)))),
            _ => {
                d.disc_ended = true;
                Poll::Ready(None)
            }
        }
    }
}
pub type BalFut = futures_util::future::MapErr<EpFut, fn(E8) -> tower::BoxError>;
pub type Bal = tower::balance::p2c::Balance<BDisc, u8>;
/// A balancer; all that waits is woken between polls.
pub fn balance(first: &[(u8, u64)]) -> Bal {
    unsafe { futures_util::stream::futures_unordered::ALL_WAKE.v = true };
    announce(first);
    Bal::from_rng(BDisc, Script)
}
/// A readiness poll: 0 Pending, 1 Ready, 2 error of discovery.
/// Checks what any such poll guarantees.
pub fn bal_ready(b: &mut Bal, cx: &mut Context<'_>) -> u8 {
    let (r0, d0) = (registered(), bg().disc_pending);
    bg().n_asked = 0;
    bg().asked = [99; 4];
    unsafe { POLLS.v = g().polls_of };
    let r = b.poll_ready(cx);
    let x = match &r {
        Poll::Pending => {
            assert!(registered() > r0, "pending: the task is registered");
            assert!(bg().disc_ended || bg().disc_pending > d0, "pending: also with discovery");
            0
        }
        Poll::Ready(Ok(())) => 1,
        Poll::Ready(Err(e)) => {
            match e.downcast_ref::<tower::balance::error::Discover>() {
                Some(d) => match std::error::Error::source(d) {
                    Some(e) => match e.downcast_ref::<E8>() {
                        Some(e) => assert!(e.0 == 77, "the error of discovery"),
                        None => panic!("the error of discovery"),
                    },
                    None => panic!("the error of discovery"),
                },
                None => panic!("only discovery fails the balancer"),
            }
            2
        }
    };
    if x != 2 {
        assert!(bg().n_disc == bg().len_disc || bg().disc_ended, "every change announced is taken");
    }
    forget(r);
    x
}
nd::ghost! { static POLLS: [u8; I] = [0; I]; }
/// A call right after a readiness poll that answered Ready: the endpoint that got it.
pub fn bal_call(b: &mut Bal) -> (usize, BalFut) {
    let n = g().calls;
    let q: u8 = any();
    let f = b.call(q);
    assert!(g().calls == n + 1 && g().req[n] == q, "the request is dispatched, once and unchanged");
    let i = g().inst[n] as usize;
    assert!(g().polls_of[i] > unsafe { POLLS.v[i] } && g().ans[i] == 1, "to an endpoint just seen ready");
    (i, f)
}
