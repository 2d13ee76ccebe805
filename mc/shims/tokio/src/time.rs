pub use std::time::Duration;

use std::future::{poll_fn, Future, IntoFuture};
use std::ops::{Add, AddAssign, Sub, SubAssign};
use std::pin::Pin;
use std::task::{Context, Poll};

pub mod error {
    #[derive(Debug, PartialEq, Eq)]
    pub struct Elapsed(pub(crate) ());
    impl std::fmt::Display for Elapsed {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "deadline has elapsed")
        }
    }
    impl std::error::Error for Elapsed {}
    impl From<Elapsed> for std::io::Error {
        fn from(_: Elapsed) -> Self {
            std::io::ErrorKind::TimedOut.into()
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Instant(Duration);
impl Instant {
    pub fn now() -> Self {
        Self(vmc::now())
    }
    pub fn elapsed(&self) -> Duration {
        vmc::now().saturating_sub(self.0)
    }
    pub fn duration_since(&self, o: Instant) -> Duration {
        self.0.saturating_sub(o.0)
    }
    pub fn saturating_duration_since(&self, o: Instant) -> Duration {
        self.0.saturating_sub(o.0)
    }
    pub fn checked_duration_since(&self, o: Instant) -> Option<Duration> {
        self.0.checked_sub(o.0)
    }
    pub fn checked_add(&self, d: Duration) -> Option<Self> {
        self.0.checked_add(d).map(Self)
    }
    pub fn checked_sub(&self, d: Duration) -> Option<Self> {
        self.0.checked_sub(d).map(Self)
    }
}
impl Add<Duration> for Instant {
    type Output = Self;
    fn add(self, d: Duration) -> Self {
        Self(self.0.checked_add(d).unwrap_or(Duration::MAX))
    }
}
impl AddAssign<Duration> for Instant {
    fn add_assign(&mut self, d: Duration) {
        *self = *self + d;
    }
}
impl Sub<Duration> for Instant {
    type Output = Self;
    fn sub(self, d: Duration) -> Self {
        Self(self.0.saturating_sub(d))
    }
}
impl SubAssign<Duration> for Instant {
    fn sub_assign(&mut self, d: Duration) {
        *self = *self - d;
    }
}
impl Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, o: Instant) -> Duration {
        self.0.saturating_sub(o.0)
    }
}

pub struct Sleep(vmc::Sleep);
impl Sleep {
    pub fn deadline(&self) -> Instant {
        Instant(self.0.at)
    }
    pub fn is_elapsed(&self) -> bool {
        self.0.elapsed()
    }
    pub fn reset(mut self: Pin<&mut Self>, at: Instant) {
        self.0.reset(at.0);
    }
}
impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        Pin::new(&mut self.0).poll(cx)
    }
}
pub fn sleep(d: Duration) -> Sleep {
    Sleep(vmc::sleep(d))
}
pub fn sleep_until(at: Instant) -> Sleep {
    Sleep(vmc::sleep_until(at.0))
}

pub struct Timeout<F> {
    fut: F,
    sleep: Sleep,
}
impl<F> Timeout<F> {
    pub fn get_ref(&self) -> &F {
        &self.fut
    }
    pub fn get_mut(&mut self) -> &mut F {
        &mut self.fut
    }
    pub fn into_inner(self) -> F {
        self.fut
    }
}
impl<F: Future> Future for Timeout<F> {
    type Output = Result<F::Output, error::Elapsed>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        // `fut` is pinned structurally, `sleep` is Unpin
        let this = unsafe { self.get_unchecked_mut() };
        if let Poll::Ready(v) = unsafe { Pin::new_unchecked(&mut this.fut) }.poll(cx) {
            return Poll::Ready(Ok(v));
        }
        match Pin::new(&mut this.sleep).poll(cx) {
            Poll::Ready(()) => Poll::Ready(Err(error::Elapsed(()))),
            Poll::Pending => Poll::Pending,
        }
    }
}
pub fn timeout<F: IntoFuture>(d: Duration, fut: F) -> Timeout<F::IntoFuture> {
    Timeout { fut: fut.into_future(), sleep: sleep(d) }
}
pub fn timeout_at<F: IntoFuture>(at: Instant, fut: F) -> Timeout<F::IntoFuture> {
    Timeout { fut: fut.into_future(), sleep: sleep_until(at) }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub enum MissedTickBehavior {
    #[default]
    Burst,
    Delay,
    Skip,
}

pub struct Interval {
    next: Duration,
    period: Duration,
    missed: MissedTickBehavior,
    sleep: vmc::Sleep,
}
impl Interval {
    pub fn poll_tick(&mut self, cx: &mut Context<'_>) -> Poll<Instant> {
        match Pin::new(&mut self.sleep).poll(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(()) => {
                let at = self.next;
                let now = vmc::now();
                self.next = match self.missed {
                    MissedTickBehavior::Burst => at + self.period,
                    MissedTickBehavior::Delay => now + self.period,
                    MissedTickBehavior::Skip => {
                        let mut n = at + self.period;
                        while n <= now {
                            n += self.period;
                        }
                        n
                    }
                };
                self.sleep.reset(self.next);
                Poll::Ready(Instant(at))
            }
        }
    }
    pub async fn tick(&mut self) -> Instant {
        poll_fn(|cx| self.poll_tick(cx)).await
    }
    pub fn reset(&mut self) {
        self.next = vmc::now() + self.period;
        self.sleep.reset(self.next);
    }
    pub fn reset_immediately(&mut self) {
        self.next = vmc::now();
        self.sleep.reset(self.next);
    }
    pub fn period(&self) -> Duration {
        self.period
    }
    pub fn set_missed_tick_behavior(&mut self, b: MissedTickBehavior) {
        self.missed = b;
    }
    pub fn missed_tick_behavior(&self) -> MissedTickBehavior {
        self.missed
    }
}
pub fn interval(period: Duration) -> Interval {
    interval_at(Instant::now(), period)
}
pub fn interval_at(start: Instant, period: Duration) -> Interval {
    assert!(period > Duration::ZERO, "`period` must be non-zero.");
    Interval { next: start.0, period, missed: MissedTickBehavior::Burst, sleep: vmc::sleep_until(start.0) }
}
