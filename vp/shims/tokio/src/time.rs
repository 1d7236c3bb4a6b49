//! Timers: the clock stands still while anything can run, then jumps to the next deadline.
use crate::vp::{Global, Shared};
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, Waker};
pub use std::time::Duration;

pub mod error {
    #[derive(Debug, PartialEq, Eq)]
    pub struct Elapsed(pub(crate) ());
    impl std::fmt::Display for Elapsed {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("deadline has elapsed")
        }
    }
    impl std::error::Error for Elapsed {}
}

struct Timer {
    at: u64,
    waker: Option<Waker>,
}
struct Clock {
    now: u64,
    timers: Vec<Shared<Timer>>,
    /// Somebody looks at the clock. Do hours pass whenever nothing happens, or none?
    passes: Option<bool>,
}
static CLOCK: Global<Clock> = Global::new(Clock { now: 0, timers: Vec::new(), passes: None });

fn now() -> u64 {
    let c = CLOCK.get();
    if c.passes.is_none() {
        c.passes = Some(nd::bool("hours pass"));
    }
    c.now
}

/// Nothing happens for a while.
pub(crate) fn quiet() {
    let c = CLOCK.get();
    if c.passes == Some(true) {
        c.now += 25 * 3_600 * 1_000_000_000;
    }
}

/// The clock that std reads.
///
/// # Safety
/// As in libc.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(_clock: i32, ts: *mut i64) -> i32 {
    let t = if nd::running() { now() } else { 0 };
    *ts = 1_000_000 + (t / 1_000_000_000) as i64;
    *ts.add(1) = (t % 1_000_000_000) as i64;
    0
}
#[used]
static KEEP: unsafe extern "C" fn(i32, *mut i64) -> i32 = clock_gettime;

/// Nothing else can run: time passes. False: nobody waits for it.
pub(crate) fn advance() -> bool {
    let c = CLOCK.get();
    let Some(at) = c.timers.iter().map(|t| t.get().at).min() else {
        return false;
    };
    c.now = c.now.max(at);
    let mut due = Vec::new();
    c.timers.retain(|t| {
        let is = t.get().at <= at;
        if is {
            due.push(t.clone());
        }
        !is
    });
    for t in due {
        let w = t.get().waker.take();
        if let Some(w) = w {
            w.wake();
        }
    }
    true
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct Instant(u64);
impl Instant {
    pub fn now() -> Self {
        Instant(now())
    }
    pub fn elapsed(&self) -> Duration {
        Duration::from_nanos(now() - self.0)
    }
    pub fn duration_since(&self, o: Instant) -> Duration {
        Duration::from_nanos(self.0.saturating_sub(o.0))
    }
}
impl std::ops::Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, d: Duration) -> Instant {
        Instant(self.0 + nanos(d))
    }
}
impl std::ops::Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, o: Instant) -> Duration {
        self.duration_since(o)
    }
}
fn nanos(d: Duration) -> u64 {
    d.as_secs().saturating_mul(1_000_000_000).saturating_add(d.subsec_nanos() as u64).min(u64::MAX / 4)
}

#[derive(Debug)]
pub struct Sleep {
    timer: Option<Shared<Timer>>,
    at: u64,
}
impl Sleep {
    pub fn deadline(&self) -> Instant {
        Instant(self.at)
    }
    pub fn is_elapsed(&self) -> bool {
        self.at <= CLOCK.get().now
    }
    pub fn reset(mut self: Pin<&mut Self>, deadline: Instant) {
        self.forget();
        self.at = deadline.0;
    }
    fn forget(&mut self) {
        if let Some(t) = self.timer.take() {
            CLOCK.get().timers.retain(|x| !x.same(&t));
        }
    }
}
impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.is_elapsed() {
            self.forget();
            return Poll::Ready(());
        }
        let at = self.at;
        let t = self.timer.get_or_insert_with(|| {
            let t = Shared::new(Timer { at, waker: None });
            CLOCK.get().timers.push(t.clone());
            t
        });
        t.get().waker = Some(cx.waker().clone());
        Poll::Pending
    }
}
impl Drop for Sleep {
    fn drop(&mut self) {
        self.forget()
    }
}
pub fn sleep_until(deadline: Instant) -> Sleep {
    Sleep { timer: None, at: deadline.0 }
}
pub fn sleep(duration: Duration) -> Sleep {
    sleep_until(Instant::now() + duration)
}

#[derive(Debug)]
pub struct Timeout<F> {
    f: F,
    sleep: Sleep,
}
impl<F> Timeout<F> {
    pub fn into_inner(self) -> F {
        self.f
    }
    pub fn get_ref(&self) -> &F {
        &self.f
    }
}
impl<F: Future> Future for Timeout<F> {
    type Output = Result<F::Output, error::Elapsed>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        // SAFETY: f is structurally pinned; sleep is Unpin
        let me = unsafe { self.get_unchecked_mut() };
        if let Poll::Ready(r) = unsafe { Pin::new_unchecked(&mut me.f) }.poll(cx) {
            return Poll::Ready(Ok(r));
        }
        Pin::new(&mut me.sleep).poll(cx).map(|_| Err(error::Elapsed(())))
    }
}
pub fn timeout<F: Future>(duration: Duration, f: F) -> Timeout<F> {
    Timeout { f, sleep: sleep(duration) }
}
pub fn timeout_at<F: Future>(deadline: Instant, f: F) -> Timeout<F> {
    Timeout { f, sleep: sleep_until(deadline) }
}

#[derive(Debug)]
pub struct Interval {
    sleep: Sleep,
    period: Duration,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Default)]
pub enum MissedTickBehavior {
    #[default]
    Burst,
    Delay,
    Skip,
}
impl Interval {
    pub fn poll_tick(&mut self, cx: &mut Context<'_>) -> Poll<Instant> {
        match Pin::new(&mut self.sleep).poll(cx) {
            Poll::Ready(()) => {
                let at = self.sleep.deadline();
                self.sleep = sleep_until(at + self.period);
                Poll::Ready(at)
            }
            Poll::Pending => Poll::Pending,
        }
    }
    pub async fn tick(&mut self) -> Instant {
        std::future::poll_fn(|cx| self.poll_tick(cx)).await
    }
    pub fn reset(&mut self) {
        self.sleep = sleep(self.period);
    }
    pub fn period(&self) -> Duration {
        self.period
    }
    pub fn set_missed_tick_behavior(&mut self, _: MissedTickBehavior) {}
}
pub fn interval(period: Duration) -> Interval {
    Interval { sleep: sleep(Duration::ZERO), period }
}
pub fn interval_at(start: Instant, period: Duration) -> Interval {
    Interval { sleep: sleep_until(start), period }
}
