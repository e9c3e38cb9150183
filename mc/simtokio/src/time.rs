use std::future::{Future, IntoFuture};
use std::ops::{Add, AddAssign, Sub, SubAssign};
use std::pin::Pin;
use std::task::{Context, Poll};
pub use std::time::Duration;

fn ns(d: Duration) -> u64 {
    d.as_nanos().min(u64::MAX as u128 / 4) as u64
}
/// tokio's timer wheel has millisecond resolution and rounds deadlines up.
fn ceil_ms(t: u64) -> u64 {
    t.div_ceil(1_000_000) * 1_000_000
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Instant(u64);
impl std::fmt::Debug for Instant {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Instant({}ns)", self.0)
    }
}
const OFF: u64 = 1_000_000_000_000;
impl Instant {
    pub fn now() -> Instant {
        Instant(simrt::now() + OFF)
    }
    pub fn from_std(s: std::time::Instant) -> Instant {
        let n = std::time::Instant::now();
        if s >= n {
            Instant(Self::now().0 + ns(s - n))
        } else {
            Instant(Self::now().0 - ns(n - s))
        }
    }
    pub fn into_std(self) -> std::time::Instant {
        let n = std::time::Instant::now();
        let m = Self::now();
        if self.0 >= m.0 {
            n + Duration::from_nanos(self.0 - m.0)
        } else {
            n - Duration::from_nanos(m.0 - self.0)
        }
    }
    pub fn elapsed(&self) -> Duration {
        Self::now() - *self
    }
    pub fn duration_since(&self, o: Instant) -> Duration {
        Duration::from_nanos(self.0.saturating_sub(o.0))
    }
    pub fn saturating_duration_since(&self, o: Instant) -> Duration {
        self.duration_since(o)
    }
    pub fn checked_duration_since(&self, o: Instant) -> Option<Duration> {
        self.0.checked_sub(o.0).map(Duration::from_nanos)
    }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> {
        self.0.checked_add(ns(d)).map(Instant)
    }
    pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
        self.0.checked_sub(ns(d)).map(Instant)
    }
}
impl Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, d: Duration) -> Instant {
        Instant(self.0.saturating_add(ns(d)))
    }
}
impl AddAssign<Duration> for Instant {
    fn add_assign(&mut self, d: Duration) {
        *self = *self + d
    }
}
impl Sub<Duration> for Instant {
    type Output = Instant;
    fn sub(self, d: Duration) -> Instant {
        Instant(self.0 - ns(d))
    }
}
impl SubAssign<Duration> for Instant {
    fn sub_assign(&mut self, d: Duration) {
        *self = *self - d
    }
}
impl Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, o: Instant) -> Duration {
        self.duration_since(o)
    }
}
impl From<std::time::Instant> for Instant {
    fn from(s: std::time::Instant) -> Self {
        Self::from_std(s)
    }
}
impl From<Instant> for std::time::Instant {
    fn from(s: Instant) -> Self {
        s.into_std()
    }
}

pub struct Sleep {
    s: simrt::Sleep,
}
unsafe impl Send for Sleep {}
unsafe impl Sync for Sleep {}
impl Sleep {
    pub fn deadline(&self) -> Instant {
        Instant(self.s.deadline + OFF)
    }
    pub fn is_elapsed(&self) -> bool {
        simrt::now() >= self.s.deadline
    }
    pub fn reset(mut self: Pin<&mut Self>, d: Instant) {
        self.s.reset(ceil_ms(d.0.saturating_sub(OFF)));
    }
}
impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        Pin::new(&mut self.s).poll(cx)
    }
}
pub fn sleep(d: Duration) -> Sleep {
    Sleep { s: simrt::Sleep::until(ceil_ms(simrt::now().saturating_add(ns(d)))) }
}
pub fn sleep_until(d: Instant) -> Sleep {
    Sleep { s: simrt::Sleep::until(ceil_ms(d.0.saturating_sub(OFF))) }
}

pub mod error {
    #[derive(Debug, PartialEq, Eq)]
    pub struct Elapsed(pub(crate) ());
    impl std::fmt::Display for Elapsed {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "deadline has elapsed")
        }
    }
    impl std::error::Error for Elapsed {}
    impl From<Elapsed> for std::io::Error {
        fn from(_: Elapsed) -> Self {
            std::io::ErrorKind::TimedOut.into()
        }
    }
}

pub struct Timeout<F> {
    f: F,
    s: Sleep,
}
impl<F> Timeout<F> {
    pub fn into_inner(self) -> F {
        self.f
    }
}
impl<F: Future> Future for Timeout<F> {
    type Output = Result<F::Output, error::Elapsed>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        // as in tokio: the future first, then the deadline
        let (f, s) = unsafe {
            let me = self.get_unchecked_mut();
            (Pin::new_unchecked(&mut me.f), Pin::new(&mut me.s))
        };
        if let Poll::Ready(v) = f.poll(cx) {
            return Poll::Ready(Ok(v));
        }
        match s.poll(cx) {
            Poll::Ready(()) => Poll::Ready(Err(error::Elapsed(()))),
            Poll::Pending => Poll::Pending,
        }
    }
}
pub fn timeout<F: IntoFuture>(d: Duration, f: F) -> Timeout<F::IntoFuture> {
    Timeout { f: f.into_future(), s: sleep(d) }
}
pub fn timeout_at<F: IntoFuture>(d: Instant, f: F) -> Timeout<F::IntoFuture> {
    Timeout { f: f.into_future(), s: sleep_until(d) }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub enum MissedTickBehavior {
    #[default]
    Burst,
    Delay,
    Skip,
}
pub struct Interval {
    next: u64,
    period: u64,
    s: Sleep,
    missed: MissedTickBehavior,
}
impl Interval {
    pub async fn tick(&mut self) -> Instant {
        std::future::poll_fn(|cx| self.poll_tick(cx)).await
    }
    pub fn poll_tick(&mut self, cx: &mut Context<'_>) -> Poll<Instant> {
        match Pin::new(&mut self.s).poll(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(()) => {
                let at = self.next;
                let now = simrt::now();
                let late = now > at + 5_000_000;
                self.next = match self.missed {
                    MissedTickBehavior::Delay if late => now + self.period,
                    MissedTickBehavior::Skip if late => now + self.period - ((now - at) % self.period),
                    _ => at + self.period,
                };
                self.s = sleep_until(Instant(self.next + OFF));
                Poll::Ready(Instant(at + OFF))
            }
        }
    }
    pub fn set_missed_tick_behavior(&mut self, b: MissedTickBehavior) {
        self.missed = b;
    }
    pub fn missed_tick_behavior(&self) -> MissedTickBehavior {
        self.missed
    }
    pub fn period(&self) -> Duration {
        Duration::from_nanos(self.period)
    }
    pub fn reset(&mut self) {
        self.next = simrt::now() + self.period;
        self.s = sleep_until(Instant(self.next + OFF));
    }
    pub fn reset_immediately(&mut self) {
        self.next = simrt::now();
        self.s = sleep_until(Instant(self.next + OFF));
    }
}
pub fn interval(p: Duration) -> Interval {
    interval_at(Instant::now(), p)
}
pub fn interval_at(start: Instant, p: Duration) -> Interval {
    assert!(p > Duration::ZERO, "`period` must be non-zero.");
    Interval { next: start.0 - OFF, period: ns(p), s: sleep_until(start), missed: MissedTickBehavior::Burst }
}
