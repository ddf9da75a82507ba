//! Virtual monotone clock.  `Instant::now()` reads it; it moves only when a
//! harness moves it (`advance`) or, in the `drift` mode, by an arbitrary amount
//! at every read.
use std::future::Future;
use std::ops::{Add, AddAssign, Sub, SubAssign};
use std::pin::Pin;
use std::task::{Context, Poll};
pub use std::time::Duration;

nd::ghost! { static NOW: Duration = Duration::ZERO; }
/// Upper bound on the drift at each read of the clock (zero: reads do not move it).
nd::ghost! { pub static DRIFT_NANOS: u32 = 0; }
/// When set, a timer that is due may still answer Pending (timer granularity).
nd::ghost! { pub static LATE_TIMERS: bool = false; }
/// Timers created (their deadlines), for harnesses that need to see them.
nd::ghost! { pub static LAST_DEADLINE: Duration = Duration::ZERO; }
nd::ghost! { pub static SLEEPS: u32 = 0; }

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Instant(Duration);

/// Read the clock without moving it.
pub fn peek() -> Instant {
    unsafe { Instant(NOW.v) }
}
pub fn set(d: Duration) {
    unsafe { NOW.v = d }
}
/// Move the clock (harness side).
pub fn elapse(d: Duration) {
    unsafe { NOW.v += d }
}
pub async fn advance(d: Duration) {
    elapse(d)
}
pub fn pause() {}
pub fn resume() {}

impl Instant {
    pub fn now() -> Instant {
        unsafe {
            if DRIFT_NANOS.v != 0 {
                let d: u32 = nd::any();
                nd::assume(d <= DRIFT_NANOS.v);
                NOW.v += Duration::new(0, d);
            }
            Instant(NOW.v)
        }
    }
    pub const fn at(d: Duration) -> Instant {
        Instant(d)
    }
    pub const fn since_epoch(&self) -> Duration {
        self.0
    }
    pub fn from_std(_: std::time::Instant) -> Instant {
        peek()
    }
    pub fn duration_since(&self, earlier: Instant) -> Duration {
        self.0.checked_sub(earlier.0).unwrap_or(Duration::ZERO)
    }
    pub fn checked_duration_since(&self, earlier: Instant) -> Option<Duration> {
        self.0.checked_sub(earlier.0)
    }
    pub fn saturating_duration_since(&self, earlier: Instant) -> Duration {
        self.0.saturating_sub(earlier.0)
    }
    pub fn elapsed(&self) -> Duration {
        Instant::now().saturating_duration_since(*self)
    }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> {
        self.0.checked_add(d).map(Instant)
    }
    pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
        self.0.checked_sub(d).map(Instant)
    }
}
impl Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, d: Duration) -> Instant {
        Instant(self.0 + d)
    }
}
impl AddAssign<Duration> for Instant {
    fn add_assign(&mut self, d: Duration) {
        *self = *self + d
    }
}
impl Sub for Instant {
    type Output = Duration;
    fn sub(self, o: Instant) -> Duration {
        self.saturating_duration_since(o)
    }
}
impl Sub<Duration> for Instant {
    type Output = Instant;
    fn sub(self, d: Duration) -> Instant {
        Instant(self.0 - d)
    }
}
impl SubAssign<Duration> for Instant {
    fn sub_assign(&mut self, d: Duration) {
        *self = *self - d
    }
}

/// A timer: Ready exactly when the clock has reached its deadline
/// (possibly later with `LATE_TIMERS.v`), never before.
#[derive(Debug)]
pub struct Sleep {
    deadline: Instant,
    waker: crate::ghost::WakerCell,
    _pin: std::marker::PhantomPinned,
}
impl Sleep {
    fn new(deadline: Instant) -> Sleep {
        unsafe {
            LAST_DEADLINE.v = deadline.0;
            SLEEPS.v += 1;
        }
        Sleep {
            deadline,
            waker: crate::ghost::WakerCell::new(),
            _pin: std::marker::PhantomPinned,
        }
    }
    pub fn deadline(&self) -> Instant {
        self.deadline
    }
    pub fn is_elapsed(&self) -> bool {
        peek() >= self.deadline
    }
    pub fn reset(self: Pin<&mut Self>, deadline: Instant) {
        unsafe {
            LAST_DEADLINE.v = deadline.0;
            self.get_unchecked_mut().deadline = deadline;
        }
    }
}
impl Future for Sleep {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let this = unsafe { self.get_unchecked_mut() };
        let due = peek() >= this.deadline;
        if due && !(unsafe { LATE_TIMERS.v } && nd::any::<bool>()) {
            Poll::Ready(())
        } else {
            this.waker.register(cx.waker());
            Poll::Pending
        }
    }
}
pub fn sleep(d: Duration) -> Sleep {
    // As tokio: a deadline too far in the future is clamped, it does not panic.
    let now = Instant::now();
    Sleep::new(now.checked_add(d).unwrap_or(Instant(Duration::MAX)))
}
pub fn sleep_until(i: Instant) -> Sleep {
    Sleep::new(i)
}

pub mod error {
    #[derive(Debug, PartialEq, Eq)]
    pub struct Elapsed(pub(crate) ());
    impl std::fmt::Display for Elapsed {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("deadline has elapsed")
        }
    }
    impl std::error::Error for Elapsed {}
}
pin_project_lite::pin_project! {
    #[derive(Debug)]
    pub struct Timeout<T> {
        #[pin]
        value: T,
        #[pin]
        delay: Sleep,
    }
}
pub fn timeout<F: Future>(d: Duration, f: F) -> Timeout<F> {
    Timeout { value: f, delay: sleep(d) }
}
pub fn timeout_at<F: Future>(i: Instant, f: F) -> Timeout<F> {
    Timeout { value: f, delay: sleep_until(i) }
}
impl<F: Future> Future for Timeout<F> {
    type Output = Result<F::Output, error::Elapsed>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let me = self.project();
        if let Poll::Ready(v) = me.value.poll(cx) {
            return Poll::Ready(Ok(v));
        }
        match me.delay.poll(cx) {
            Poll::Ready(()) => Poll::Ready(Err(error::Elapsed(()))),
            Poll::Pending => Poll::Pending,
        }
    }
}
