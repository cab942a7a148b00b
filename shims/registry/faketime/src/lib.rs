//! Stand-in for `faketime`: the wall clock, or a value a test set.
use std::sync::atomic::{AtomicU64, Ordering};
static NOW: AtomicU64 = AtomicU64::new(0);
pub fn set_unix_time_as_millis(ms: u64) {
    NOW.store(ms, Ordering::SeqCst)
}
pub fn unix_time_as_millis() -> u64 {
    match NOW.load(Ordering::SeqCst) {
        0 => std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64,
        n => n,
    }
}
