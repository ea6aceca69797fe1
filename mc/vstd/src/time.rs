//! Clocks in virtual time.
pub use ::std::time::*;
use crate::rt;
use ::std::ops::{Add, AddAssign, Sub, SubAssign};

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Instant(u64);
impl Instant {
  pub fn now() -> Instant {
    Instant(rt::now())
  }
  pub fn elapsed(&self) -> Duration {
    Duration::from_nanos(rt::now().saturating_sub(self.0))
  }
  pub fn duration_since(&self, o: Instant) -> Duration {
    Duration::from_nanos(self.0.saturating_sub(o.0))
  }
  pub fn saturating_duration_since(&self, o: Instant) -> Duration {
    self.duration_since(o)
  }
  pub fn checked_duration_since(&self, o: Instant) -> Option<Duration> {
    self.0.checked_sub(o.0).map(Duration::from_nanos)
  }
  pub fn checked_add(&self, d: Duration) -> Option<Instant> {
    self.0.checked_add(d.as_nanos() as u64).map(Instant)
  }
  pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
    self.0.checked_sub(d.as_nanos() as u64).map(Instant)
  }
}
impl Add<Duration> for Instant {
  type Output = Instant;
  fn add(self, d: Duration) -> Instant {
    Instant(self.0 + d.as_nanos() as u64)
  }
}
impl AddAssign<Duration> for Instant {
  fn add_assign(&mut self, d: Duration) {
    self.0 += d.as_nanos() as u64
  }
}
impl Sub<Duration> for Instant {
  type Output = Instant;
  fn sub(self, d: Duration) -> Instant {
    Instant(self.0 - d.as_nanos() as u64)
  }
}
impl SubAssign<Duration> for Instant {
  fn sub_assign(&mut self, d: Duration) {
    self.0 -= d.as_nanos() as u64
  }
}
impl Sub<Instant> for Instant {
  type Output = Duration;
  fn sub(self, o: Instant) -> Duration {
    self.duration_since(o)
  }
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct SystemTime(u64);
pub const UNIX_EPOCH: SystemTime = SystemTime(0);
impl SystemTime {
  pub const UNIX_EPOCH: SystemTime = SystemTime(0);
  pub fn now() -> SystemTime {
    SystemTime(rt::now())
  }
  pub fn duration_since(&self, o: SystemTime) -> Result<Duration, ::std::time::SystemTimeError> {
    let base = ::std::time::UNIX_EPOCH;
    (base + Duration::from_nanos(self.0)).duration_since(base + Duration::from_nanos(o.0))
  }
  pub fn elapsed(&self) -> Result<Duration, ::std::time::SystemTimeError> {
    SystemTime::now().duration_since(*self)
  }
}
impl Add<Duration> for SystemTime {
  type Output = SystemTime;
  fn add(self, d: Duration) -> SystemTime {
    SystemTime(self.0 + d.as_nanos() as u64)
  }
}
impl Sub<Duration> for SystemTime {
  type Output = SystemTime;
  fn sub(self, d: Duration) -> SystemTime {
    SystemTime(self.0 - d.as_nanos() as u64)
  }
}
