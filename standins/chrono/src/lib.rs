//! Stand-in for `chrono`: only what a log line's time stamp needs.
use std::fmt;
pub struct Local;
pub struct DateTime(u64);
pub struct Formatted(u64);
impl Local {
    pub fn now() -> DateTime {
        let d = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH);
        DateTime(d.map(|d| d.as_secs()).unwrap_or(0))
    }
}
impl DateTime {
    pub fn format(&self, _: &str) -> Formatted {
        Formatted(self.0)
    }
}
impl fmt::Display for Formatted {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let s = self.0;
        write!(f, "{:02}:{:02}:{:02}", s / 3600 % 24, s / 60 % 60, s % 60)
    }
}
