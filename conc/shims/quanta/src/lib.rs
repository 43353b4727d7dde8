//! quanta on the virtual clock. Raw counts start at an arbitrary value and tick once per nanosecond.
use std::time::Duration;
const BASE: u64 = 1_699_999_000_000_000_000;
#[derive(Debug, Clone, Default)]
pub struct Clock;
impl Clock {
    pub fn new() -> Self {
        Clock
    }
    pub fn raw(&self) -> u64 {
        vsched::clock_read() - BASE
    }
    pub fn now(&self) -> Instant {
        Instant(self.raw())
    }
    pub fn delta_as_nanos(&self, start: u64, end: u64) -> u64 {
        end.saturating_sub(start)
    }
    pub fn delta(&self, start: u64, end: u64) -> Duration {
        Duration::from_nanos(self.delta_as_nanos(start, end))
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Instant(u64);
impl Instant {
    pub fn now() -> Self {
        Clock.now()
    }
    pub fn duration_since(&self, o: Instant) -> Duration {
        Duration::from_nanos(self.0.saturating_sub(o.0))
    }
    pub fn elapsed(&self) -> Duration {
        Self::now().duration_since(*self)
    }
}
