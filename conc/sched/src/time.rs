//! Virtual clock.
use crate::*;
pub use std::time::Duration;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct SystemTime(u64);
pub const UNIX_EPOCH: SystemTime = SystemTime(0);
#[derive(Debug, Clone)]
pub struct SystemTimeError(Duration);
impl std::fmt::Display for SystemTimeError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("second time provided was later than self")
    }
}
impl std::error::Error for SystemTimeError {}
impl SystemTimeError {
    pub fn duration(&self) -> Duration {
        self.0
    }
}
impl SystemTime {
    pub const UNIX_EPOCH: SystemTime = SystemTime(0);
    pub fn now() -> Self {
        SystemTime(crate::clock_read())
    }
    pub fn duration_since(&self, o: SystemTime) -> Result<Duration, SystemTimeError> {
        if self.0 >= o.0 {
            Ok(Duration::from_nanos(self.0 - o.0))
        } else {
            Err(SystemTimeError(Duration::from_nanos(o.0 - self.0)))
        }
    }
    pub fn elapsed(&self) -> Result<Duration, SystemTimeError> {
        Self::now().duration_since(*self)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Instant(u64);
impl Instant {
    pub fn now() -> Self {
        Instant(crate::now())
    }
    pub fn duration_since(&self, o: Instant) -> Duration {
        Duration::from_nanos(self.0.saturating_sub(o.0))
    }
    pub fn elapsed(&self) -> Duration {
        Self::now().duration_since(*self)
    }
}
impl std::ops::Sub for Instant {
    type Output = Duration;
    fn sub(self, o: Instant) -> Duration {
        self.duration_since(o)
    }
}
impl std::ops::Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, o: Duration) -> Instant {
        Instant(self.0 + o.as_nanos() as u64)
    }
}
