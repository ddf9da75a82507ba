//! The environment of the code under contract: arbitrary wrapped services with
//! ghost state that checks the obligations their caller owes them.
pub use std::future::Future;
pub use std::pin::Pin;
pub use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
pub use std::time::Duration;
pub use tokio::time as clock;
pub use tower_service::Service;

/// A contract: a harness whose assertions are the obligations.  `//@` lines
/// above each one say what it covers (read by check.py).
#[macro_export]
macro_rules! proof {
    // with `Mutex::lock` replaced by its uncontended path and the content of `Arc`s leaked
    ($name:ident, $unwind:literal, light, $body:block) => {
        #[cfg_attr(kani, kani::proof, kani::unwind($unwind), kani::solver(minisat), kani::stub(std::sync::Mutex::lock, $crate::env::lock), kani::stub(std::sync::Arc::drop_slow, $crate::env::leak))]
        #[cfg_attr(not(kani), test)]
        fn $name() {
            $crate::env::run(|| $body)
        }
    };
    ($name:ident, $unwind:literal, stub($a:path, $b:path), $body:block) => {
        #[cfg_attr(kani, kani::proof, kani::unwind($unwind), kani::solver(minisat), kani::stub($a, $b))]
        #[cfg_attr(not(kani), test)]
        fn $name() {
            $crate::env::run(|| $body)
        }
    };
    ($name:ident, $unwind:literal, $body:block) => {
        #[cfg_attr(kani, kani::proof, kani::unwind($unwind), kani::solver(minisat))]
        #[cfg_attr(not(kani), test)]
        fn $name() {
            $crate::env::run(|| $body)
        }
    };
}
#[cfg(kani)]
pub fn run<F: FnOnce()>(f: F) {
    f()
}
/// Natively: one replay of the recorded values, or many random ones.
#[cfg(not(kani))]
pub fn run<F: FnOnce()>(f: F) {
    std::panic::set_hook(Box::new(|i| {
        if !i.payload().is::<nd::Discard>() {
            println!("REPLAY-PANIC: {}", i);
        }
    }));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    match r {
        Ok(()) => println!("REPLAY-OK"),
        Err(e) if e.is::<nd::Discard>() => println!("REPLAY-DISCARD"),
        Err(e) => std::panic::resume_unwind(e),
    }
}

pub use nd::{any, assume, below, cover};

// ---- wakers -----------------------------------------------------------------

static VT: RawWakerVTable = RawWakerVTable::new(w_clone, w_wake, w_wake, w_drop);
/// How often the task under test was woken.
nd::ghost! { pub static WAKES: u32 = 0; }
unsafe fn w_clone(p: *const ()) -> RawWaker {
    RawWaker::new(p, &VT)
}
unsafe fn w_wake(_: *const ()) {
    WAKES.v += 1;
}
unsafe fn w_drop(_: *const ()) {}
/// The waker of the task under test.
pub fn waker() -> Waker {
    unsafe { Waker::from_raw(RawWaker::new(std::ptr::without_provenance(1), &VT)) }
}
pub fn wakes() -> u32 {
    unsafe { WAKES.v }
}
nd::ghost! { static REGISTERED: u32 = 0; }
/// Registrations of a waker with anything in the environment (mocks and models).
pub fn registered() -> u32 {
    unsafe { REGISTERED.v + tokio::ghost::REGISTERED.v + futures_util::stream::futures_unordered::REGISTERED.v }
}
/// A mock answers Pending: it keeps the waker it was given.
pub fn register(cx: &mut Context<'_>) {
    if nd::is_task(cx.waker()) {
        unsafe { REGISTERED.v += 1 }
    }
}
#[macro_export]
macro_rules! cx {
    ($w:ident, $cx:ident) => {
        let $w = $crate::env::waker();
        #[allow(unused_mut)]
        let mut $cx = std::task::Context::from_waker(&$w);
    };
}
/// Poll a future in place.
pub fn poll<F: Future + ?Sized>(f: &mut F, cx: &mut Context<'_>) -> Poll<F::Output> {
    unsafe { Pin::new_unchecked(f) }.poll(cx)
}

// ---- arbitrary values ---------------------------------------------------------

pub fn duration() -> Duration {
    let s: u64 = any();
    let n: u32 = any();
    assume(n < 1_000_000_000);
    Duration::new(s, n)
}
/// Any duration of less than `bits` bits of seconds.
pub fn duration_below(bits: u32) -> Duration {
    let d = duration();
    assume(d.as_secs() < 1u64 << bits);
    d
}
/// 0 Pending, 1 Ready(Ok), 2 Ready(Err)
pub fn answer(pend: bool, err: bool) -> u8 {
    if !pend && !err {
        return 1;
    }
    let x: u8 = any();
    assume(x < 3 && (pend || x != 0) && (err || x != 2));
    x
}

// ---- errors ---------------------------------------------------------------------

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct MyErr(pub u8);
impl std::fmt::Display for MyErr {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for MyErr {}
/// The boxed error is exactly `MyErr(v)`.
pub fn is_my_err(e: &tower::BoxError, v: u8) -> bool {
    match e.downcast_ref::<MyErr>() {
        Some(m) => m.0 == v,
        None => false,
    }
}

// ---- the wrapped service ----------------------------------------------------------

pub const N: usize = 6;
/// Instances told apart.
pub const I: usize = 6;
/// What may happen in the environment, and what did.
pub struct Ghost {
    // configuration
    pub rdy_pend: bool,
    pub rdy_err: bool,
    pub fut_pend: bool,
    pub fut_err: bool,
    /// 255, or the answer every readiness poll / response future gives
    pub force_rdy: u8,
    /// the caller may poll a service that failed: its owner does so knowingly
    pub lenient: bool,
    pub force_fut: u8,
    /// answers of the next readiness polls, before `force_rdy` applies
    pub script: &'static [u8],
    /// ... after that: 255, or the answer of every readiness poll of this instance
    pub ans: [u8; I],
    pub polls_of: [u8; I],
    /// instances dropped
    pub gone: [bool; I],
    // readiness polls
    pub polls: u32,
    pub last_poll: u8,
    pub last_inst: u8,
    pub ready_err: u8,
    // calls, in order
    pub calls: usize,
    pub req: [u8; N],
    pub inst: [u8; N],
    /// 0 not called, 1 live, 2 completed Ok, 3 completed Err, 4 dropped unfinished
    pub st: [u8; N],
    pub val: [u8; N],
    pub fut_polls: [u8; N],
    /// response futures alive (not dropped)
    pub live: u32,
    pub services: u8,
    pub svc_alive: u32,
}
nd::ghost! { pub static G: Ghost = Ghost {
    rdy_pend: true,
    rdy_err: true,
    fut_pend: true,
    fut_err: true,
    force_rdy: 255,
    lenient: false,
    force_fut: 255,
    script: &[],
    ans: [255; I],
    polls_of: [0; I],
    gone: [false; I],
    polls: 0,
    last_poll: 0,
    last_inst: 0,
    ready_err: 0,
    calls: 0,
    req: [0; N],
    inst: [0; N],
    st: [0; N],
    val: [0; N],
    fut_polls: [0; N],
    live: 0,
    services: 0,
    svc_alive: 0,
}; }
pub fn g() -> &'static mut Ghost {
    unsafe { &mut *std::ptr::addr_of_mut!(G.v) }
}
/// The wrapped service never fails and is always ready / responses come at once.
pub fn quiet(rdy_pend: bool, rdy_err: bool, fut_pend: bool, fut_err: bool) {
    let g = g();
    g.rdy_pend = rdy_pend;
    g.rdy_err = rdy_err;
    g.fut_pend = fut_pend;
    g.fut_err = fut_err;
}

/// An arbitrary service.  Contract it imposes on its caller: `call` only when
/// this very instance last answered `Ready(Ok)` and was not called since;
/// nothing at all after it answered an error.
///
/// (Flags are bytes: an enum would otherwise hide its tag in them, which costs the verifier its
/// constants.)
pub struct Svc {
    pub ready: u8,
    pub failed: u8,
    pub inst: u8,
}
impl Svc {
    pub fn new() -> Svc {
        let i = g().services;
        g().services += 1;
        g().svc_alive += 1;
        Svc { ready: 0, failed: 0, inst: i }
    }
}
impl Clone for Svc {
    fn clone(&self) -> Svc {
        // a clone is another instance: it has not reported ready
        Svc::new()
    }
}
impl Drop for Svc {
    fn drop(&mut self) {
        g().svc_alive -= 1;
        if (self.inst as usize) < I {
            g().gone[self.inst as usize] = true;
        }
    }
}
impl Service<u8> for Svc {
    type Response = u8;
    type Error = MyErr;
    type Future = Fut;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), MyErr>> {
        nd::check!(self.failed == 0, "C01: service polled after its readiness poll failed");
        let x = match g().script {
            [x, rest @ ..] => {
                g().script = rest;
                *x
            }
            [] if (self.inst as usize) < I && g().ans[self.inst as usize] != 255 => g().ans[self.inst as usize],
            [] if g().force_rdy != 255 => g().force_rdy,
            [] => answer(g().rdy_pend, g().rdy_err),
        };
        g().polls += 1;
        if (self.inst as usize) < I {
            g().polls_of[self.inst as usize] += 1;
        }
        g().last_poll = x;
        g().last_inst = self.inst;
        self.ready = 0;
        match x {
            0 => {
                register(cx);
                Poll::Pending
            }
            1 => {
                self.ready = 1;
                Poll::Ready(Ok(()))
            }
            _ => {
                self.failed = !g().lenient as u8;
                let e: u8 = any();
                g().ready_err = e;
                Poll::Ready(Err(MyErr(e)))
            }
        }
    }
    fn call(&mut self, r: u8) -> Fut {
        nd::check!(self.failed == 0, "C01: service called after its readiness poll failed");
        nd::check!(self.ready == 1, "C01: service called without having reported ready since its last call");
        self.ready = 0;
        Fut::new(r, self.inst)
    }
}
/// An arbitrary response future; `t` is the position of its call.
pub struct Fut {
    pub t: usize,
}
impl Fut {
    pub fn new(r: u8, inst: u8) -> Fut {
        let g = g();
        let t = g.calls;
        assert!(t < N, "model capacity exceeded");
        g.calls += 1;
        g.req[t] = r;
        g.inst[t] = inst;
        g.st[t] = 1;
        g.live += 1;
        Fut { t }
    }
}
impl Future for Fut {
    type Output = Result<u8, MyErr>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        nd::check!(!done(self.t), "C01: response future polled after it completed");
        let x = if g().force_fut != 255 { g().force_fut } else { answer(g().fut_pend, g().fut_err) };
        g().fut_polls[self.t] = g().fut_polls[self.t].wrapping_add(1);
        if x == 0 {
            register(cx);
            return Poll::Pending;
        }
        let v: u8 = any();
        g().val[self.t] = v;
        if x == 1 {
            g().st[self.t] = 2;
            Poll::Ready(Ok(v))
        } else {
            g().st[self.t] = 3;
            Poll::Ready(Err(MyErr(v)))
        }
    }
}
impl Drop for Fut {
    fn drop(&mut self) {
        g().live -= 1;
        if g().st[self.t] == 1 {
            g().st[self.t] = 4;
        }
    }
}

/// Stub of `Arc::drop_slow`: the content of an `Arc` is leaked instead of dropped (for contracts
/// in which nothing depends on that drop; errors nested in errors make it expensive).
#[cfg(kani)]
pub unsafe fn leak<T: ?Sized, A: std::alloc::Allocator>(_: &mut std::sync::Arc<T, A>) {}

/// Stub of `Mutex::lock`: with a single thread, waiting for the lock is a deadlock.
#[cfg(kani)]
pub fn lock<T: ?Sized>(m: &std::sync::Mutex<T>) -> std::sync::LockResult<std::sync::MutexGuard<'_, T>> {
    match m.try_lock() {
        Ok(g) => Ok(g),
        Err(std::sync::TryLockError::Poisoned(p)) => Err(p),
        Err(std::sync::TryLockError::WouldBlock) => panic!("deadlock"),
    }
}

// ---- checking results against the ghost state -----------------------------------

/// `r` is exactly the outcome of call `t`.
pub fn same(t: usize, r: &Result<u8, MyErr>) -> bool {
    match r {
        Ok(v) => g().st[t] == 2 && g().val[t] == *v,
        Err(e) => g().st[t] == 3 && g().val[t] == e.0,
    }
}
/// The same through a boxed error.
pub fn same_boxed(t: usize, r: &Result<u8, tower::BoxError>) -> bool {
    match r {
        Ok(v) => g().st[t] == 2 && g().val[t] == *v,
        Err(e) => g().st[t] == 3 && is_my_err(e, g().val[t]),
    }
}
pub fn done(t: usize) -> bool {
    g().st[t] == 2 || g().st[t] == 3
}
/// The readiness answer is passed through unchanged.
pub fn same_ready(r: &Poll<Result<(), MyErr>>) -> bool {
    match r {
        Poll::Pending => g().last_poll == 0,
        Poll::Ready(Ok(())) => g().last_poll == 1,
        Poll::Ready(Err(e)) => g().last_poll == 2 && e.0 == g().ready_err,
    }
}
pub fn same_ready_boxed(r: &Poll<Result<(), tower::BoxError>>) -> bool {
    match r {
        Poll::Pending => g().last_poll == 0,
        Poll::Ready(Ok(())) => g().last_poll == 1,
        Poll::Ready(Err(e)) => g().last_poll == 2 && is_my_err(e, g().ready_err),
    }
}
pub fn forget<T>(t: T) {
    std::mem::forget(t)
}

// ---- a configured function ----------------------------------------------------------

/// Ghost state of the function a combinator was configured with.
pub struct FnGhost {
    pub calls: u32,
    pub ok: bool,
    pub arg: u8,
    pub res: u8,
    pub res_ok: bool,
    /// ticket of the future it returned
    pub t: usize,
    /// wrapped calls made before the function ran
    pub before: usize,
}
nd::ghost! { pub static FG: FnGhost = FnGhost { calls: 0, ok: false, arg: 0, res: 0, res_ok: false, t: 0, before: 0 }; }
pub fn fg() -> &'static mut FnGhost {
    unsafe { &mut *std::ptr::addr_of_mut!(FG.v) }
}
/// The function is applied: it may return anything.
pub fn applied(ok: bool, arg: u8) -> u8 {
    let f = fg();
    f.calls += 1;
    f.ok = ok;
    f.arg = arg;
    f.before = g().calls;
    f.res = any();
    f.res
}
/// ... or a Result.
pub fn applied_res(ok: bool, arg: u8) -> Result<u8, MyErr> {
    let v = applied(ok, arg);
    fg().res_ok = any();
    if fg().res_ok {
        Ok(v)
    } else {
        Err(MyErr(v))
    }
}
/// ... or a future.
pub fn applied_fut(ok: bool, arg: u8) -> Fut {
    applied(ok, arg);
    fg().t = g().calls;
    Fut::new(0, 200)
}
/// Two readiness polls, the last answers Ready(Ok); `check` sees both answers.
pub fn make_ready<S: Service<u8>>(s: &mut S, cx: &mut Context<'_>, check: impl Fn(&Poll<Result<(), S::Error>>) -> bool) {
    if any() {
        ready_once(s, cx, &check);
    }
    let p0 = g().polls;
    let r = s.poll_ready(cx);
    assert!(g().polls == p0 + 1, "readiness is asked once per poll");
    assert!(check(&r), "readiness is passed through");
    assume(matches!(r, Poll::Ready(Ok(()))));
    forget(r);
}
pub fn ready_once<S: Service<u8>>(s: &mut S, cx: &mut Context<'_>, check: &impl Fn(&Poll<Result<(), S::Error>>) -> bool) {
    let (p0, r0) = (g().polls, registered());
    let r = s.poll_ready(cx);
    assert!(g().polls == p0 + 1, "readiness is asked once per poll");
    assert!(check(&r), "readiness is passed through");
    if r.is_pending() {
        assert!(registered() > r0, "pending: the task is registered");
    }
    assume(!matches!(r, Poll::Ready(Err(_))));
    forget(r);
}
/// The final answer of a future polled up to three times (Pending before);
/// every Pending left the task registered.
pub fn answer3<F: Future>(f: &mut F, cx: &mut Context<'_>) -> Poll<F::Output> {
    let n = below(3);
    if n >= 1 {
        pending_once(f, cx);
    }
    if n >= 2 {
        pending_once(f, cx);
    }
    let r0 = registered();
    let r = poll(f, cx);
    if r.is_pending() {
        assert!(registered() > r0, "pending: the task is registered");
    }
    r
}
pub fn pending_once<F: Future>(f: &mut F, cx: &mut Context<'_>) {
    let r0 = registered();
    let r = poll(f, cx);
    if r.is_pending() {
        assert!(registered() > r0, "pending: the task is registered");
    }
    assume(r.is_pending());
    forget(r);
}

// ---- a service factory ------------------------------------------------------------

/// An arbitrary factory: readiness, calls and futures are those of a `Svc`.
pub struct Mk(pub Svc);
impl Mk {
    pub fn new() -> Mk {
        Mk(Svc::new())
    }
}
impl Service<u8> for Mk {
    type Response = Made;
    type Error = MyErr;
    type Future = MkFut;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), MyErr>> {
        self.0.poll_ready(cx)
    }
    fn call(&mut self, target: u8) -> MkFut {
        MkFut(self.0.call(target))
    }
}
pub struct MkFut(pub Fut);
impl Future for MkFut {
    type Output = Result<Made, MyErr>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        poll(&mut self.0, cx).map_ok(|v| Made { v, svc: Svc::new() })
    }
}
/// What the factory made: `v` is the value of the future that made it.
pub struct Made {
    pub v: u8,
    pub svc: Svc,
}
impl Service<u8> for Made {
    type Response = u8;
    type Error = MyErr;
    type Future = Fut;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), MyErr>> {
        self.svc.poll_ready(cx)
    }
    fn call(&mut self, r: u8) -> Fut {
        self.svc.call(r)
    }
}

// ---- discovery -----------------------------------------------------------------------

use tower::discover::Change;
/// What discovery answers: 0 Pending, 1 Insert, 2 Remove, 3 Err, 4 end.
pub struct DiscGhost {
    pub script: &'static [u8],
    pub polls: u32,
    pub last: u8,
    pub key: u8,
    pub inst: u8,
    pub err: u8,
    pub ended: bool,
}
nd::ghost! { pub static DG: DiscGhost = DiscGhost { script: &[], polls: 0, last: 9, key: 0, inst: 0, err: 0, ended: false }; }
pub fn dg() -> &'static mut DiscGhost {
    unsafe { &mut *std::ptr::addr_of_mut!(DG.v) }
}
/// An arbitrary discovery stream (scripted kinds first, arbitrary keys and services).
pub struct Disc;
impl futures_core::Stream for Disc {
    type Item = Result<Change<u8, Svc>, MyErr>;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        let d = dg();
        nd::check!(!d.ended, "discovery is not polled after its end");
        d.polls += 1;
        d.last = match d.script {
            [x, rest @ ..] => {
                d.script = rest;
                *x
            }
            [] => below(5) as u8,
        };
        match d.last {
            0 => {
                register(cx);
                Poll::Pending
            }
            1 => {
                d.key = any();
                let s = Svc::new();
                d.inst = s.inst;
                Poll::Ready(Some(Ok(Change::Insert(d.key, s))))
            }
            2 => {
                d.key = any();
                Poll::Ready(Some(Ok(Change::Remove(d.key))))
            }
            3 => {
                d.err = any();
                Poll::Ready(Some(Err(MyErr(d.err))))
            }
            _ => {
                d.ended = true;
                Poll::Ready(None)
            }
        }
    }
}
/// A wrapped discovery stream answered what discovery just answered.
pub fn same_change<S>(r: &Poll<Option<Result<Change<u8, S>, MyErr>>>) -> bool {
    let d = dg();
    match r {
        Poll::Pending => d.last == 0,
        Poll::Ready(Some(Ok(Change::Insert(k, _)))) => d.last == 1 && *k == d.key,
        Poll::Ready(Some(Ok(Change::Remove(k)))) => d.last == 2 && *k == d.key,
        Poll::Ready(Some(Err(e))) => d.last == 3 && e.0 == d.err,
        Poll::Ready(None) => d.last == 4,
    }
}
