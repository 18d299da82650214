//! Verification stand-in for `web_time`: a monotonic clock whose every reading is an arbitrary value
//! not below the previous one.
pub use std::time::Duration;
use std::ops::{Add, AddAssign, Sub};

/// Whole seconds and nanoseconds since an arbitrary origin.
#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Instant(pub Duration);

static mut CLOCK: Duration = Duration::ZERO;

/// Test hook: the current reading of the clock.
pub fn clock() -> Duration {
    unsafe { CLOCK }
}
/// Test hook: set the clock.
pub fn set_clock(d: Duration) {
    unsafe { CLOCK = d }
}

#[cfg(kani)]
fn tick() {
    // Readings stay below 2^33 seconds (about 272 years), so that adding an interval cannot overflow.
    let secs: u64 = kani::any();
    let nanos: u32 = kani::any();
    kani::assume(secs < (1 << 33));
    kani::assume(nanos < 1_000_000_000);
    let d = Duration::new(secs, nanos);
    kani::assume(d >= clock());
    set_clock(d);
}
#[cfg(not(kani))]
fn tick() {}

impl Instant {
    pub fn now() -> Self {
        tick();
        Instant(clock())
    }
    pub fn elapsed(&self) -> Duration {
        Instant::now().saturating_duration_since(*self)
    }
    pub fn duration_since(&self, e: Instant) -> Duration {
        self.saturating_duration_since(e)
    }
    pub fn saturating_duration_since(&self, e: Instant) -> Duration {
        self.0.checked_sub(e.0).unwrap_or(Duration::ZERO)
    }
    pub fn checked_duration_since(&self, e: Instant) -> Option<Duration> {
        self.0.checked_sub(e.0)
    }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> {
        self.0.checked_add(d).map(Instant)
    }
    pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
        self.0.checked_sub(d).map(Instant)
    }
}
impl Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, d: Duration) -> Instant {
        Instant(self.0 + d)
    }
}
impl AddAssign<Duration> for Instant {
    fn add_assign(&mut self, d: Duration) {
        self.0 += d;
    }
}
impl Sub<Duration> for Instant {
    type Output = Instant;
    fn sub(self, d: Duration) -> Instant {
        Instant(self.0 - d)
    }
}
impl Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, e: Instant) -> Duration {
        self.saturating_duration_since(e)
    }
}
